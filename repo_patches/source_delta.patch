From fc12c9853d220edaf71c0cc431730a4b2a4a4fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:57 +0000
Subject: [PATCH 01/40] fix: slice comparison must check the length of the
 second slice before indexing it

Compare*Slice tested len(s1) < i, which is never true, so comparing a slice
with a shorter one it starts with indexed out of range. CompareSlice also
called Compare on nil elements.
---
 src/collection/util.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index c235b01..9cda09e 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -437,7 +437,16 @@ func CompareSlice(s1, s2 []IComparable) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
+			return 1
+		}
+
+		// nil element is smaller than any non nil element
+		if IsNil(s1[i]) && IsNil(s2[i]) {
+			continue
+		} else if IsNil(s1[i]) {
+			return -1
+		} else if IsNil(s2[i]) {
 			return 1
 		}
 
@@ -470,7 +479,7 @@ func CompareByteSlice(s1, s2 []byte) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -504,7 +513,7 @@ func CompareInt8Slice(s1, s2 []int8) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -538,7 +547,7 @@ func CompareInt16Slice(s1, s2 []int16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -572,7 +581,7 @@ func CompareUint16Slice(s1, s2 []uint16) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -606,7 +615,7 @@ func CompareInt32Slice(s1, s2 []int32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -640,7 +649,7 @@ func CompareUint32Slice(s1, s2 []uint32) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -674,7 +683,7 @@ func CompareInt64Slice(s1, s2 []int64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -708,7 +717,7 @@ func CompareUint64Slice(s1, s2 []uint64) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
@@ -742,7 +751,7 @@ func CompareIntSlice(s1, s2 []int) int {
 	// we are here if both s1 and s2 are not nil
 	for i, _ := range s1 {
 
-		if len(s1) < i {
+		if len(s2) <= i {
 			return 1
 		}
 
-- 
2.43.0


From f8be4f0278e48a6e7361d9d5a3fc3614b13e95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 02/40] fix: Equal and Compare of comparable slices must agree
 on nil

Compare tested the wrapped slice instead of the receiver against a nil
argument, so that a nil slice compared equal to, or smaller than, itself
depending on the side; Equal dereferenced a typed nil argument.
---
 src/collection/comparable.go | 81 +++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/collection/comparable.go b/src/collection/comparable.go
index 39e2c96..1e3262e 100644
--- a/src/collection/comparable.go
+++ b/src/collection/comparable.go
@@ -50,7 +50,7 @@ func NewComparableSlice(s []IComparable) *ComparableSlice {
 
 // return XOR of hash of each IComparable object in the slice
 func (s *ComparableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -65,15 +65,20 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 	// convert to ComparableSlice
 	th := t.(*ComparableSlice)
 
+	// If one is nil, the other must also be nil.
+	if (s.slice == nil) != (th.slice == nil) {
+		return false
+	}
+
 	if len(s.slice) != len(th.slice) {
 		return false
 	}
 
 	for i := range s.slice {
-		if (s.slice[i] == nil) != (th.slice[i] == nil) {
+		if IsNil(s.slice[i]) != IsNil(th.slice[i]) {
 			return false
 		}
-		if s.slice[i] == nil {
+		if IsNil(s.slice[i]) {
 			continue
 		} else if !s.slice[i].Equal(th.slice[i]) {
 			return false
@@ -86,15 +91,15 @@ func (s *ComparableSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -118,7 +123,7 @@ func NewComparableByteSlice(s []byte) *ComparableByteSlice {
 
 // return if two hashable byte array equals
 func (s *ComparableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -143,15 +148,15 @@ func (s *ComparableByteSlice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableByteSlice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableByteSlice [%v]", reflect.TypeOf(c)))
 	}
@@ -175,7 +180,7 @@ func NewComparableInt8Slice(s []int8) *ComparableInt8Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt8Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -200,15 +205,15 @@ func (s *ComparableInt8Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt8Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt8Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -232,7 +237,7 @@ func NewComparableInt16Slice(s []int16) *ComparableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -257,15 +262,15 @@ func (s *ComparableInt16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -289,7 +294,7 @@ func NewComparableUint16Slice(s []uint16) *ComparableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -314,15 +319,15 @@ func (s *ComparableUint16Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint16Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint16Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -346,7 +351,7 @@ func NewComparableInt32Slice(s []int32) *ComparableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -371,15 +376,15 @@ func (s *ComparableInt32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -403,7 +408,7 @@ func NewComparableUint32Slice(s []uint32) *ComparableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -428,15 +433,15 @@ func (s *ComparableUint32Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint32Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint32Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -460,7 +465,7 @@ func NewComparableInt64Slice(s []int64) *ComparableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *ComparableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -485,15 +490,15 @@ func (s *ComparableInt64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableInt64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableInt64Slice [%v]", reflect.TypeOf(c)))
 	}
@@ -518,7 +523,7 @@ func NewComparableUint64Slice(s []uint64) *ComparableUint64Slice {
 // return if two hashable byte array equals
 func (s *ComparableUint64Slice) Equal(t IObject) bool {
 
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -543,15 +548,15 @@ func (s *ComparableUint64Slice) Equal(t IObject) bool {
 // compare each element in the slice
 func (s *ComparableUint64Slice) Compare(c IComparable) int {
 
-	if IsNil(s.slice) && IsNil(c) {
+	if s == nil && IsNil(c) {
 		return 0
-	} else if IsNil(s.slice) {
+	} else if s == nil {
 		return -1
 	} else if IsNil(c) {
 		return 1
 	}
 
-	// we are here if both s.slice and c are not nil
+	// we are here if both s and c are not nil
 	if reflect.TypeOf(s) != reflect.TypeOf(c) {
 		panic(fmt.Sprintf("ComparableSlice::Compare - target is not ComparableUint64Slice [%v]", reflect.TypeOf(c)))
 	}
-- 
2.43.0


From dba873a975a65751460623838a013cc20a40a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 03/40] fix: hashing a typed slice must not reslice memory past
 its capacity

The byte view of the slice was resliced to len*size with the capacity
still counted in elements, which panics; hashing a HashableSlice with an
element always panicked on reflect.TypeOf of a nil interface.
---
 src/collection/hashable.go | 60 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/collection/hashable.go b/src/collection/hashable.go
index 1570685..895661f 100644
--- a/src/collection/hashable.go
+++ b/src/collection/hashable.go
@@ -1,9 +1,8 @@
 package collection
 
 import (
-	"fmt"
+	"encoding/binary"
 	"reflect"
-	"unsafe"
 )
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -54,7 +53,7 @@ func NewHashableSlice(s []IHashable) *HashableSlice {
 
 // return XOR of hash of each IHashable object in the slice
 func (s *HashableSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -74,10 +73,10 @@ func (s *HashableSlice) Equal(t IObject) bool {
 	}
 
 	for i := range s.slice {
-		if (s.slice[i] == nil) != (th.slice[i] == nil) {
+		if IsNil(s.slice[i]) != IsNil(th.slice[i]) {
 			return false
 		}
-		if s.slice[i] == nil {
+		if IsNil(s.slice[i]) {
 			continue
 		} else if !s.slice[i].Equal(th.slice[i]) {
 			return false
@@ -99,13 +98,10 @@ func (s *HashableSlice) HashUint32(f func([]byte) uint32) uint32 {
 
 	h := empty_hash
 	for _, obj := range s.slice {
-		if obj == nil {
+		if IsNil(obj) {
 			h ^= empty_hash
 		} else {
-			if !reflect.TypeOf(obj).Implements(reflect.TypeOf((IHashable)(nil))) {
-				panic(fmt.Sprintf("HashableSlice::HashUint32 - unexpected object type [%s]", reflect.TypeOf(obj)))
-			}
-			h ^= obj.(IHashable).HashUint32(f)
+			h ^= obj.HashUint32(f)
 		}
 	}
 
@@ -127,7 +123,7 @@ func NewHashableByteSlice(s []byte) *HashableByteSlice {
 
 // return if two hashable byte array equals
 func (s *HashableByteSlice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -174,7 +170,7 @@ func NewHashableInt16Slice(s []int16) *HashableInt16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -204,7 +200,10 @@ func (s *HashableInt16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := make([]byte, len(s.slice)*2)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint16(b[i*2:], uint16(v))
+	}
 	return f(b)
 }
 
@@ -223,7 +222,7 @@ func NewHashableUint16Slice(s []uint16) *HashableUint16Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint16Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -253,7 +252,10 @@ func (s *HashableUint16Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint16 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*2]
+	b := make([]byte, len(s.slice)*2)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint16(b[i*2:], v)
+	}
 	return f(b)
 }
 
@@ -272,7 +274,7 @@ func NewHashableInt32Slice(s []int32) *HashableInt32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -302,7 +304,10 @@ func (s *HashableInt32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := make([]byte, len(s.slice)*4)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint32(b[i*4:], uint32(v))
+	}
 	return f(b)
 }
 
@@ -321,7 +326,7 @@ func NewHashableUint32Slice(s []uint32) *HashableUint32Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint32Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -351,7 +356,10 @@ func (s *HashableUint32Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint32 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*4]
+	b := make([]byte, len(s.slice)*4)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint32(b[i*4:], v)
+	}
 	return f(b)
 }
 
@@ -370,7 +378,7 @@ func NewHashableInt64Slice(s []int64) *HashableInt64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableInt64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -400,7 +408,10 @@ func (s *HashableInt64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert int64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := make([]byte, len(s.slice)*8)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint64(b[i*8:], uint64(v))
+	}
 	return f(b)
 }
 
@@ -419,7 +430,7 @@ func NewHashableUint64Slice(s []uint64) *HashableUint64Slice {
 
 // return if two hashable byte array equals
 func (s *HashableUint64Slice) Equal(t IObject) bool {
-	if (s == nil) != (t == nil) {
+	if (s == nil) != IsNil(t) {
 		return false
 	}
 
@@ -449,6 +460,9 @@ func (s *HashableUint64Slice) HashUint32(f func([]byte) uint32) uint32 {
 	}
 
 	// convert uint64 array to byte array
-	b := (*(*[]byte)(unsafe.Pointer(&s.slice)))[:len(s.slice)*8]
+	b := make([]byte, len(s.slice)*8)
+	for i, v := range s.slice {
+		binary.LittleEndian.PutUint64(b[i*8:], v)
+	}
 	return f(b)
 }
-- 
2.43.0


From 2c27ec31d7593b826ead75a428920323e6935ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:33 +0000
Subject: [PATCH 04/40] fix: IsNil must not panic on array values

---
 src/collection/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collection/util.go b/src/collection/util.go
index 9cda09e..20d3eda 100644
--- a/src/collection/util.go
+++ b/src/collection/util.go
@@ -30,7 +30,7 @@ func IsNil(i interface{}) bool {
 		return true
 	}
 	switch reflect.TypeOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 	return false
-- 
2.43.0


From fd8648183fab96c59f5500fda21344a96c79cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 05/40] fix: range iteration must start at the first key not
 below the start

The comparison with the start was inverted, so an iterator skipped every key
above its start and yielded those below it; moving to a right subtree also
skipped that subtree's smaller keys.
---
 src/collection/avl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/collection/avl.go b/src/collection/avl.go
index f5a0932..d200fd8 100644
--- a/src/collection/avl.go
+++ b/src/collection/avl.go
@@ -448,11 +448,16 @@ func (i *AVLIterator) advance() {
 
 	if i.start != nil {
 
-		for comp := i.start.Compare(i.currNode.key); comp < 0; {
+		for comp := i.start.Compare(i.currNode.key); comp > 0; {
 
 			if i.currNode.link[1] != nil {
 
 				i.currNode = i.currNode.link[1]
+				i.currPos = 0
+				for i.currNode.link[0] != nil {
+					i.paths = append(i.paths, i.currNode)
+					i.currNode = i.currNode.link[0]
+				}
 				comp = i.start.Compare(i.currNode.key)
 
 			} else {
-- 
2.43.0


From 21d33de48709559bde5b7b320563630b10f8e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 06/40] fix: map and set iterators must not panic once
 exhausted

Next and Peek asserted the type of the nil object an exhausted iterator
returns.
---
 src/collection/hash_map.go   | 4 ++--
 src/collection/hash_set.go   | 4 ++--
 src/collection/sorted_map.go | 4 ++--
 src/collection/sorted_set.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collection/hash_map.go b/src/collection/hash_map.go
index 7d0fa41..760c6ea 100644
--- a/src/collection/hash_map.go
+++ b/src/collection/hash_map.go
@@ -50,7 +50,7 @@ func (m *HashMap) Size() int {
 }
 
 func (i *HashMapIterator) Next() (IHashable, IObject) {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -63,7 +63,7 @@ func (i *HashMapIterator) HasNext() bool {
 }
 
 func (i *HashMapIterator) Peek() (IHashable, IObject) {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/hash_set.go b/src/collection/hash_set.go
index 46d8b34..7d77ef0 100644
--- a/src/collection/hash_set.go
+++ b/src/collection/hash_set.go
@@ -50,7 +50,7 @@ func (m *HashSet) Size() int {
 }
 
 func (i *HashSetIterator) Next() IObject {
-	node := i.iter.Next().(*HashNode)
+	node, _ := i.iter.Next().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -63,7 +63,7 @@ func (i *HashSetIterator) HasNext() bool {
 }
 
 func (i *HashSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*HashNode)
+	node, _ := i.iter.Peek().(*HashNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
diff --git a/src/collection/sorted_map.go b/src/collection/sorted_map.go
index dc10121..ff1653f 100644
--- a/src/collection/sorted_map.go
+++ b/src/collection/sorted_map.go
@@ -45,7 +45,7 @@ func (m *SortedMap) Size() int {
 }
 
 func (i *SortedMapIterator) Next() (IComparable, IObject) {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedMapIterator) HasNext() bool {
 }
 
 func (i *SortedMapIterator) Peek() (IComparable, IObject) {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key, node.value
 	} else {
diff --git a/src/collection/sorted_set.go b/src/collection/sorted_set.go
index 6b4ffd4..faf6724 100644
--- a/src/collection/sorted_set.go
+++ b/src/collection/sorted_set.go
@@ -45,7 +45,7 @@ func (m *SortedSet) Size() int {
 }
 
 func (i *SortedSetIterator) Next() IObject {
-	node := i.iter.Next().(*AVLNode)
+	node, _ := i.iter.Next().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
@@ -58,7 +58,7 @@ func (i *SortedSetIterator) HasNext() bool {
 }
 
 func (i *SortedSetIterator) Peek() IObject {
-	node := i.iter.Peek().(*AVLNode)
+	node, _ := i.iter.Peek().(*AVLNode)
 	if !IsNil(node) {
 		return node.key
 	} else {
-- 
2.43.0


From 9120b89cbd1bd5e159cbaf310d6e7d7281939e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 07/40] fix: varint and varchar decoding must accept any
 integer and survive any length

DecodeVarint64 and DecodeUvarint64 treated the integer read as a length of
what follows and so rejected most of what their encoders write; DecodeVarchar
overflowed on lengths over 63 bits and panicked slicing the buffer. The
number of sub keys is now bounded where it is used.
---
 src/util/key_util.go  | 6 ++++++
 src/util/misc_util.go | 6 +-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 93a3ae0..913e9dd 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -227,6 +227,12 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		return 0, fmt.Errorf("MappedKey::Decode - subKey size error [%v]", err)
 	}
 	pos += length
+
+	// each subKey takes at least 1 byte
+	if subKeySize > uint64(len(k.buf)-pos) {
+		return 0, fmt.Errorf("MappedKey::Decode - subKey size [%d] bigger than remaining buf size [%d]", subKeySize, len(k.buf)-pos)
+	}
+
 	k.keys = make([][]byte, subKeySize)
 	for idx, _ := range k.keys {
 		k.keys[idx], length, err = DecodeVarchar(k.buf[pos:])
diff --git a/src/util/misc_util.go b/src/util/misc_util.go
index a07b0c6..a4ab093 100644
--- a/src/util/misc_util.go
+++ b/src/util/misc_util.go
@@ -51,8 +51,6 @@ func DecodeVarint64(buf []byte) (int64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeVarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeVarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -85,8 +83,6 @@ func DecodeUvarint64(buf []byte) (uint64, int, error) {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return 0, 0, fmt.Errorf("DecodeUvarint64 - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
-		return 0, 0, fmt.Errorf("DecodeUvarint64 - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
 	return bufLength, bufN, nil
@@ -122,7 +118,7 @@ func DecodeVarchar(buf []byte) ([]byte, int, error) {
 		return nil, 0, fmt.Errorf("DecodeVarchar - failed to read input length [%d]", bufN)
 	} else if bufN == 0 && len(buf) != 0 && buf[0] != 0 {
 		return nil, 0, fmt.Errorf("DecodeVarchar - unexpected error - buf len [%d], first byte [%d]", len(buf), buf[0])
-	} else if len(buf) < bufN+int(bufLength) {
+	} else if uint64(len(buf)-bufN) < bufLength {
 		return nil, 0, fmt.Errorf("DecodeVarchar - varchar length [%d] bigger than remaining buf size [%d]", bufLength, len(buf)-bufN)
 	}
 
-- 
2.43.0


From a1d093dc2e69a7d10e3b90e45127dab83c66718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 08/40] fix: a mapped key must keep only the bytes it was
 decoded from

NewMappedKey kept the whole input as its buf, so that Buf() and EstBufSize()
of a key decoded from a record covered the rest of the record; IsDecoded
reported the opposite, and Copy shared the underlying array.
---
 src/util/key_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 913e9dd..9efbf64 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -213,7 +213,7 @@ func (k *MappedKey) Encode(IContext) error {
 }
 
 func (k *MappedKey) IsDecoded() bool {
-	return k.keys == nil
+	return k.decoded
 }
 
 func (k *MappedKey) Decode(IContext) (int, error) {
@@ -242,13 +242,14 @@ func (k *MappedKey) Decode(IContext) (int, error) {
 		pos += length
 	}
 
+	k.buf = k.buf[:pos]
 	k.decoded = true
 
 	return pos, nil
 }
 
 func (k *MappedKey) Copy() IEncodable {
-	result, _, err := NewMappedKey(k.buf)
+	result, _, err := NewMappedKey(append([]byte{}, k.buf...))
 	if err != nil {
 		panic(fmt.Errorf("MappedKey::Copy - unexpected failure %s", err))
 	}
-- 
2.43.0


From cdf4aec1becaea7d99d3b5457bca7a801d6a599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 09/40] fix: key copies must be independent and never keep a
 stale encoding

Copy and CopyConstruct shared the sub key arrays with the original and
panicked on a zero length sub key; Add left the key marked as encoded with
the buf of its previous content.
---
 src/util/key_util.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 9efbf64..8452ddf 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -259,13 +259,7 @@ func (k *MappedKey) Copy() IEncodable {
 
 func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(key)
-	}
-
-	return result, nil
+	return copyKey(k.Key()), nil
 }
 
 func (k *MappedKey) Equal(o collection.IObject) bool {
@@ -446,24 +440,12 @@ func (k *Key) Decode(IContext) (int, error) {
 
 func (k *Key) Copy() IEncodable {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(key)
-	}
-
-	return result
+	return copyKey(k.Key())
 }
 
 func (k *Key) CopyConstruct() (IEncodable, error) {
 
-	result := NewKey()
-
-	for _, key := range k.Key() {
-		result.Add(key)
-	}
-
-	return result, nil
+	return copyKey(k.Key()), nil
 }
 
 func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
@@ -557,5 +539,19 @@ func (k *Key) Add(subKey []byte) *Key {
 
 	k.keys = append(k.keys, subKey)
 	k.estBufSize += 1 + len(subKey)
+	k.encoded = false
 	return k
 }
+
+// make a modifiable key from a copy of each subKey
+func copyKey(keys [][]byte) *Key {
+
+	result := NewKey()
+
+	for _, key := range keys {
+		result.keys = append(result.keys, append(key[:0:0], key...))
+		result.estBufSize += 1 + len(key)
+	}
+
+	return result
+}
-- 
2.43.0


From dd9b1d2befba8b1931751e6691cfc629dff05bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:57 +0000
Subject: [PATCH 10/40] fix: comparing a key with a shorter or nil key must not
 panic

---
 src/util/key_util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/key_util.go b/src/util/key_util.go
index 8452ddf..3102417 100644
--- a/src/util/key_util.go
+++ b/src/util/key_util.go
@@ -88,7 +88,7 @@ func (k *EmptyKey) CopyConstruct() (IEncodable, error) {
 
 func (k *EmptyKey) Equal(o collection.IObject) bool {
 
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -263,7 +263,7 @@ func (k *MappedKey) CopyConstruct() (IEncodable, error) {
 }
 
 func (k *MappedKey) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -297,7 +297,7 @@ func (k *MappedKey) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
@@ -457,7 +457,7 @@ func (k *Key) HashUint32(f func([]byte) uint32) uint32 {
 }
 
 func (k *Key) Equal(o collection.IObject) bool {
-	if o == nil {
+	if collection.IsNil(o) {
 		return false
 	}
 
@@ -491,7 +491,7 @@ func (k *Key) Compare(c collection.IComparable) int {
 
 	t := c.(IKey)
 	for idx, subKey := range k.Key() {
-		if len(t.Key()) < idx {
+		if len(t.Key()) <= idx {
 			return 1
 		}
 		r := collection.CompareByteSlice(subKey, t.SubKeyAt(idx))
-- 
2.43.0


From c0577f7853eb7e69dd83509fc62d75daaffe3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 11/40] fix: a nil primitive must encode to the one byte nil
 value

It encoded to no bytes at all, so that an array or record holding it was
read back with its elements shifted.
---
 src/util/value_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 5a44774..16882bc 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -691,7 +691,7 @@ func (d *Primitive) Encode(IContext) error {
 
 	if d.data == nil {
 		d.magic = 0x00
-		d.buf = nil
+		d.buf = []byte{0x00}
 		d.encoded = true
 		return nil
 	}
-- 
2.43.0


From c923fd84da92616dfde332afe7678ef6c389f773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 12/40] fix: a mapped value must not keep an element it failed
 to decode

ValueAt and RecordAt stored the typed nil result of a failed decode as the
element, so that the next call returned it without error and its use
panicked; ValueMagic of an empty simple value indexed an empty buf.
---
 src/util/value_util.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/util/value_util.go b/src/util/value_util.go
index 16882bc..1afb001 100644
--- a/src/util/value_util.go
+++ b/src/util/value_util.go
@@ -121,6 +121,9 @@ func (d *SimpleMappedValue) Value() []byte {
 // encoding, decoding, and buf
 
 func (d *SimpleMappedValue) ValueMagic() byte {
+	if len(d.buf) == 0 {
+		return 0x00
+	}
 	return d.buf[0]
 }
 
@@ -280,17 +283,17 @@ func (d *StandardMappedValue) ValueAt(idx uint16) (IValue, error) {
 		return d.data_array[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.data_array[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:ValueAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.data_array[i], _, err = NewStandardMappedValue(d.content[pos:])
+			element, _, err := NewStandardMappedValue(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.data_array[i] = element
 		}
 		pos += len(d.data_array[i].Buf())
 		//pos += length
@@ -317,17 +320,17 @@ func (d *StandardMappedValue) RecordAt(idx uint16) (IRecord, error) {
 		return d.record_list[idx], nil
 	}
 
-	var err error
 	pos := 0
 	for i := uint16(0); i <= idx; i++ {
 		if d.record_list[i] == nil {
 			if len(d.content) < pos {
 				return nil, fmt.Errorf("StandardMappedValue:RecordAt[%d] - invalid content %d - %d, %x", idx, i, len(d.content), d.content)
 			}
-			d.record_list[i], _, err = NewMappedRecord(d.content[pos:])
+			element, _, err := NewMappedRecord(d.content[pos:])
 			if err != nil {
 				return nil, err
 			}
+			d.record_list[i] = element
 		}
 		pos += len(d.record_list[i].Buf())
 	}
-- 
2.43.0


From dd35ad40763de57eab660f38527896d87cac359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 13/40] fix: decoding a record without key, value or scheme
 must not panic

The component was dereferenced whether or not its bit was set.
---
 src/util/record_util.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index d3c2ead..662c0d7 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -167,14 +167,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasKey := (r.buf[0] >> 6) & 0x01
 	if hasKey != 0 {
 		key, length, err = NewMappedKey(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
-	} else if len(key.Buf()) > MAX_KEY_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", len(key.Buf()), MAX_KEY_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - key error [%v]", err)
+		} else if length > MAX_KEY_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - key size %d larger than %d", length, MAX_KEY_LENGTH)
+		}
 		r.key = key
-		pos += len(r.key.Buf())
+		pos += length
 	}
 
 	// value
@@ -184,14 +183,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasValue := (r.buf[0] >> 5) & 0x01
 	if hasValue != 0 {
 		value, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
-	} else if len(value.Buf()) > MAX_VALUE_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", len(value.Buf()), MAX_VALUE_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - value error [%v]", err)
+		} else if length > MAX_VALUE_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - value size %d larger than %d", length, MAX_VALUE_LENGTH)
+		}
 		r.value = value
-		pos += len(r.value.Buf())
+		pos += length
 	}
 
 	// scheme
@@ -201,14 +199,13 @@ func (r *MappedRecord) Decode(IContext) (length int, err error) {
 	hasScheme := (r.buf[0] >> 4) & 0x01
 	if hasScheme != 0 {
 		scheme, length, err = NewStandardMappedValue(r.buf[pos:])
-	}
-	if err != nil {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
-	} else if len(scheme.Buf()) > MAX_SCHEME_LENGTH {
-		return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", len(scheme.Buf()), MAX_SCHEME_LENGTH)
-	} else {
+		if err != nil {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme error [%v]", err)
+		} else if length > MAX_SCHEME_LENGTH {
+			return 0, fmt.Errorf("MappedRecord::Decode - scheme size %d larger than %d", length, MAX_SCHEME_LENGTH)
+		}
 		r.scheme = scheme
-		pos += len(r.scheme.Buf())
+		pos += length
 	}
 
 	// timestamp bit
-- 
2.43.0


From 00966f042dd04688034b814aed8f640b3c5d76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 14/40] fix: copying a mapped record must handle absent
 components and errors

CopyConstruct used the copy of each component before checking its error,
and dereferenced components the record does not have.
---
 src/util/record_util.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 662c0d7..4f4f602 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -263,24 +263,29 @@ func (r *MappedRecord) Copy() IEncodable {
 func (r *MappedRecord) CopyConstruct() (IEncodable, error) {
 
 	result := NewRecord()
-	var err error
 
-	key, err := r.Key().CopyConstruct()
-	result.key = key.(IKey)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+	if r.Key() != nil {
+		key, err := r.Key().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - key error [%v]", err)
+		}
+		result.key = key.(IKey)
 	}
 
-	value, err := r.Value().CopyConstruct()
-	result.value = value.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+	if r.Value() != nil {
+		value, err := r.Value().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - value error [%v]", err)
+		}
+		result.value = value.(IValue)
 	}
 
-	scheme, err := r.Scheme().CopyConstruct()
-	result.scheme = scheme.(IValue)
-	if err != nil {
-		return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+	if r.Scheme() != nil {
+		scheme, err := r.Scheme().CopyConstruct()
+		if err != nil {
+			return nil, fmt.Errorf("MappedRecord::CopyConstruct - scheme error [%v]", err)
+		}
+		result.scheme = scheme.(IValue)
 	}
 
 	result.timestamp = r.Timestamp()                       // timestamp is immutable
-- 
2.43.0


From 74589d425ac9e4c4b0de0ed54ba414e9f2545054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:07 +0000
Subject: [PATCH 15/40] fix: a record must not encode components larger than
 its decoder accepts

Only the length of a constructed key was limited; a record with a value or
scheme over the limit encoded and could not be read back.
---
 src/util/record_util.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/record_util.go b/src/util/record_util.go
index 4f4f602..d32b5c6 100644
--- a/src/util/record_util.go
+++ b/src/util/record_util.go
@@ -419,6 +419,9 @@ func (r *Record) Encode(IContext) error {
 		if err != nil {
 			return fmt.Errorf("Record::Encode - key error [%v]", err)
 		}
+		if len(r.key.Buf()) > MAX_KEY_LENGTH {
+			return fmt.Errorf("Record::Encode - key size %d larger than %d", len(r.key.Buf()), MAX_KEY_LENGTH)
+		}
 
 		buf[0] |= byte(0x01) << 6
 		buf = append(buf, r.key.Buf()...)
@@ -431,6 +434,9 @@ func (r *Record) Encode(IContext) error {
 		if err != nil {
 			return fmt.Errorf("Record::Encode - value error [%v]", err)
 		}
+		if len(r.value.Buf()) > MAX_VALUE_LENGTH {
+			return fmt.Errorf("Record::Encode - value size %d larger than %d", len(r.value.Buf()), MAX_VALUE_LENGTH)
+		}
 
 		buf[0] |= byte(0x01) << 5
 		buf = append(buf, r.value.Buf()...)
@@ -443,6 +449,9 @@ func (r *Record) Encode(IContext) error {
 		if err != nil {
 			return fmt.Errorf("Record::Encode - scheme error [%v]", err)
 		}
+		if len(r.scheme.Buf()) > MAX_SCHEME_LENGTH {
+			return fmt.Errorf("Record::Encode - scheme size %d larger than %d", len(r.scheme.Buf()), MAX_SCHEME_LENGTH)
+		}
 
 		buf[0] |= byte(0x01) << 4
 		buf = append(buf, r.scheme.Buf()...)
-- 
2.43.0


From bc5ff95a4324631c1e438ffa837dc620fc0a51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 16/40] fix: raft time must be written where it is read

Buf wrote the term over the type byte and every field one byte early, so a
raft time could not be read back.
---
 src/util/consensus_util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index c7ac540..e112bff 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -143,9 +143,9 @@ func NewRaftTime(term, millis, count uint32) *RaftTime {
 func (t *RaftTime) Buf() []byte {
 	buf := make([]byte, 1+12)
 	buf[0] = CONSENSUS_TIME_RAFT
-	binary.BigEndian.PutUint32(buf, t.term)
-	binary.BigEndian.PutUint32(buf[4:], t.millis)
-	binary.BigEndian.PutUint32(buf[8:], t.count)
+	binary.BigEndian.PutUint32(buf[1:], t.term)
+	binary.BigEndian.PutUint32(buf[5:], t.millis)
+	binary.BigEndian.PutUint32(buf[9:], t.count)
 	return buf
 }
 
-- 
2.43.0


From 5937ee003854babb0d1c2e41809222adccfc64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 17/40] fix: raft time LT and LE must not skip a bigger leading
 field

The second comparison repeated the first one, so a later term with fewer
milliseconds compared as earlier.
---
 src/util/consensus_util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index e112bff..ff1e894 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -223,17 +223,17 @@ func (t *RaftTime) LT(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return false, nil
@@ -246,17 +246,17 @@ func (t *RaftTime) LE(ict IConsensusTime) (bool, error) {
 	if tmp, ok := ict.(*RaftTime); ok {
 		if t.term < tmp.term {
 			return true, nil
-		} else if t.term < tmp.term {
+		} else if t.term > tmp.term {
 			return false, nil
 		}
 		if t.millis < tmp.millis {
 			return true, nil
-		} else if t.millis < tmp.millis {
+		} else if t.millis > tmp.millis {
 			return false, nil
 		}
 		if t.count < tmp.count {
 			return true, nil
-		} else if t.count < tmp.count {
+		} else if t.count > tmp.count {
 			return false, nil
 		}
 		return true, nil
-- 
2.43.0


From b01807c0f527ec2036830a1555f85be667f2cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 18/40] fix: an empty consensus id must be an error, not a
 panic

---
 src/util/consensus_util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/consensus_util.go b/src/util/consensus_util.go
index ff1e894..20420f4 100644
--- a/src/util/consensus_util.go
+++ b/src/util/consensus_util.go
@@ -280,7 +280,11 @@ type MappedConsensusID struct {
 }
 
 func NewMappedConsensusID(buf []byte) (*MappedConsensusID, error) {
-	if buf == nil || len(buf) == 0 || buf[0] == 0x00 {
+	if len(buf) == 0 {
+		return nil, fmt.Errorf("NewConsensusID - empty buf")
+	}
+
+	if buf[0] == 0x00 {
 		return nil, fmt.Errorf("NewConsensusID - invalid magic [%b]", buf[0])
 	}
 
-- 
2.43.0


From c7c6495beb4439de0d2aa87bcefebbee7e684be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 19/40] fix: scheme magic bits must be written and tested

Encode shifted zero into the magic, so it never told which attributes follow,
and Decode or-ed the bit instead of testing it, so it read all of them always;
a decoded scheme also kept the rest of the input as its buf.
---
 src/util/scheme_util.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index bb0c842..119d32e 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -158,7 +158,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	var err error
 
 	// decode domain
-	if s.buf[0]|(0x01<<7) != 0 {
+	if s.buf[0]&(0x01<<7) != 0 {
 		s.domain, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - domain error [%v]", err)
@@ -167,7 +167,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode tablet
-	if s.buf[0]|(0x01<<6) != 0 {
+	if s.buf[0]&(0x01<<6) != 0 {
 		s.tablet, length, err = DecodeVarchar(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - tablet error [%v]", err)
@@ -176,7 +176,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 	}
 
 	// decode buckets
-	if s.buf[0]|(0x01<<5) != 0 {
+	if s.buf[0]&(0x01<<5) != 0 {
 		bucketSize, length, err := DecodeUvarint64(s.buf[pos:])
 		if err != nil {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
@@ -192,6 +192,7 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 		}
 	}
 
+	s.buf = s.buf[:pos]
 	s.decoded = true
 
 	return pos, nil
@@ -326,7 +327,7 @@ func (s *Scheme) Encode(IContext) error {
 	buf := []byte{byte(0x00)}
 
 	if s.domain != nil {
-		buf[0] |= 0x00 << 7
+		buf[0] |= 0x01 << 7
 		buf = append(buf, EncodeVarchar(s.domain)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -336,7 +337,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.tablet != nil {
-		buf[0] |= 0x00 << 6
+		buf[0] |= 0x01 << 6
 		buf = append(buf, EncodeVarchar(s.tablet)...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
@@ -346,7 +347,7 @@ func (s *Scheme) Encode(IContext) error {
 	}
 
 	if s.buckets != nil {
-		buf[0] |= 0x00 << 5
+		buf[0] |= 0x01 << 5
 		buf = append(buf, EncodeUvarint64(uint64(len(s.buckets)))...)
 		if len(buf) > MAX_SCHEME_LENGTH {
 			return fmt.Errorf("Scheme::Encode - scheme length [%d] exceeding maximum [%d]",
-- 
2.43.0


From 591f5903743045fe0dab78c9ebfdd2ff9d85daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 20/40] fix: decoding a scheme must survive any buf

An empty buf panicked, and the number of buckets was allocated unchecked.
---
 src/util/scheme_util.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 119d32e..32d72fb 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -153,6 +153,10 @@ func (s *MappedScheme) IsDecoded() bool {
 
 func (s *MappedScheme) Decode(IContext) (int, error) {
 
+	if len(s.buf) < 1 {
+		return 0, fmt.Errorf("MappedScheme::Decode - invalid empty buf")
+	}
+
 	pos := 1
 	var length int
 	var err error
@@ -182,6 +186,12 @@ func (s *MappedScheme) Decode(IContext) (int, error) {
 			return 0, fmt.Errorf("MappedScheme::Decode - bucket size error [%v]", err)
 		}
 		pos += length
+
+		// each bucket takes at least 1 byte
+		if bucketSize > uint64(len(s.buf)-pos) {
+			return 0, fmt.Errorf("MappedScheme::Decode - bucket size [%d] bigger than remaining buf size [%d]", bucketSize, len(s.buf)-pos)
+		}
+
 		s.buckets = make([][]byte, bucketSize)
 		for idx, _ := range s.buckets {
 			s.buckets[idx], length, err = DecodeVarchar(s.buf[pos:])
-- 
2.43.0


From 26d864ac0fa1aaa548be5987fda571d6f77784f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 21/40] fix: scheme copies must not share their bytes with the
 original

---
 src/util/scheme_util.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/util/scheme_util.go b/src/util/scheme_util.go
index 32d72fb..a9f35a1 100644
--- a/src/util/scheme_util.go
+++ b/src/util/scheme_util.go
@@ -216,16 +216,18 @@ func (s *MappedScheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
@@ -396,16 +398,18 @@ func (s *Scheme) Copy() IEncodable {
 	c := NewScheme()
 
 	if s.domain != nil {
-		c.domain = s.domain
+		c.domain = append([]byte{}, s.domain...)
 	}
 
 	if s.tablet != nil {
-		c.tablet = s.tablet
+		c.tablet = append([]byte{}, s.tablet...)
 	}
 
 	if s.buckets != nil {
 		c.buckets = make([][]byte, len(s.buckets))
-		copy(c.buckets, s.buckets)
+		for i, bucket := range s.buckets {
+			c.buckets[i] = append([]byte{}, bucket...)
+		}
 	}
 
 	return c
-- 
2.43.0


From 3d2281a157d2f40fb881523cef75bd502eebc96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 22/40] fix: signed random ranges must stay in range

The remainder of a negative random number is negative, so half of the results
were below the minimum.
---
 src/util/rand_util.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/rand_util.go b/src/util/rand_util.go
index 34d3dc3..bc0dfe0 100644
--- a/src/util/rand_util.go
+++ b/src/util/rand_util.go
@@ -154,8 +154,8 @@ func RandUint64() uint64 {
 }
 
 func RandInt8Range(min, max int8) int8 {
-	data := RandInt8()
-	result := data%(max-min) + min
+	data := RandUint8()
+	result := int8(data%uint8(max-min)) + min
 	return result
 }
 
@@ -166,8 +166,8 @@ func RandUint8Range(min, max uint8) uint8 {
 }
 
 func RandInt16Range(min, max int16) int16 {
-	data := RandInt16()
-	result := data%(max-min) + min
+	data := RandUint16()
+	result := int16(data%uint16(max-min)) + min
 	return result
 }
 
@@ -178,8 +178,8 @@ func RandUint16Range(min, max uint16) uint16 {
 }
 
 func RandInt32Range(min, max int32) int32 {
-	data := RandInt32()
-	result := data%(max-min) + min
+	data := RandUint32()
+	result := int32(data%uint32(max-min)) + min
 	return result
 }
 
@@ -190,8 +190,8 @@ func RandUint32Range(min, max uint32) uint32 {
 }
 
 func RandInt64Range(min, max int64) int64 {
-	data := RandInt64()
-	result := data%(max-min) + min
+	data := RandUint64()
+	result := int64(data%uint64(max-min)) + min
 	return result
 }
 
-- 
2.43.0


From 9a09fe66b1ab0c1d81892087caa91819164b1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 23/40] fix: loading a truncated key file must be an error, not
 a panic

---
 src/util/lc_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 0b816ae..d0ef920 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -233,6 +233,10 @@ func lc_load_key_data(filepath string) ([]byte, error) {
 		return nil, err
 	}
 
+	if n < 4 {
+		return nil, fmt.Errorf("[%s] key data too short for CRC [%d]", filepath, n)
+	}
+
 	data := output[:n-4]
 	compute_crc := make([]byte, 4)
 	binary.BigEndian.PutUint32(compute_crc, crc32.ChecksumIEEE(data))
@@ -271,6 +275,10 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 		return nil, err
 	}
 
+	if len(data) < 12 {
+		return nil, fmt.Errorf("[%s] key data too short for nonce [%d]", filepath, len(data))
+	}
+
 	key := []byte(secret)
 	nonce := data[:12]
 	ciphertext := data[12:]
-- 
2.43.0


From 2aeb124fe24a0e8fb569510121c9426b9b29582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 24/40] fix: failing to create the key directory must be
 reported

The error of MkdirAll was dropped and the nil result of the Stat that
followed was dereferenced.
---
 src/util/lc_util.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index d0ef920..53e82b1 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -304,11 +304,16 @@ func lc_load_priv_key(cls int, id string, secret []byte) (*ecdsa.PrivateKey, err
 func lc_mkdir_if_not_exist(path string) error {
 
 	if _, stat_err := os.Stat(path); os.IsNotExist(stat_err) {
-		os.MkdirAll(path, 0755)
+		if err := os.MkdirAll(path, 0755); err != nil {
+			return err
+		}
 	}
 
 	// check again for the path
-	stat_info, _ := os.Stat(path)
+	stat_info, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
 	if !stat_info.Mode().IsDir() {
 		return fmt.Errorf("Path is not a directory : %s", path)
 	}
-- 
2.43.0


From 36a40ea57d9176cc6f0fe1c6818ff3325b540e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:01 +0000
Subject: [PATCH 25/40] fix: loading a public key that is not on the curve must
 be an error

The key was returned without its Y coordinate, and verifying a signature with
it panicked.
---
 src/util/lc_util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index 53e82b1..c52b712 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -263,7 +263,12 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 		return nil, err
 	}
 
-	return ECDSAGetPublicKey(data), nil
+	pub_key := ECDSAGetPublicKey(data)
+	if pub_key.Y == nil {
+		return nil, fmt.Errorf("[%s] public key is not on the curve", filepath)
+	}
+
+	return pub_key, nil
 }
 
 // priv key are always encrypted
-- 
2.43.0


From 0b4fea20d933763ef449554416e9ad3aaf9300f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 26/40] fix: a corrupt or empty hash table must not panic on
 load or lookup

The masks and the number of verify keys read were used unchecked, and looking
up any key in an empty table indexed its empty key array.
---
 src/util/mph_util.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index bc53b34..b3527b7 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -91,6 +91,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		return nil, pos, fmt.Errorf("NewMPHTable - missing level 0 mask %d", len(buf))
 	}
 	t.level0Mask = int(binary.BigEndian.Uint32(buf[pos:]))
+	if t.level0Mask != len(t.level0)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 0 mask %d does not match length %d", t.level0Mask, len(t.level0))
+	}
 	pos += 4
 
 	////////////////////////////////////////
@@ -116,6 +119,9 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		return nil, pos, fmt.Errorf("NewMPHTable - missing level 1 mask %d", len(buf))
 	}
 	t.level1Mask = int(binary.BigEndian.Uint32(buf[pos:]))
+	if t.level1Mask != len(t.level1)-1 {
+		return nil, pos, fmt.Errorf("NewMPHTable - level 1 mask %d does not match length %d", t.level1Mask, len(t.level1))
+	}
 	pos += 4
 
 	////////////////////////////////////////
@@ -132,6 +138,11 @@ func NewMPHTable(buf []byte) (*MPHTable, int, error) {
 		verifyKeySize := binary.BigEndian.Uint32(buf[pos:])
 		pos += 4
 
+		// each key takes at least 1 byte
+		if int(verifyKeySize) > len(buf)-pos {
+			return nil, pos, fmt.Errorf("NewMPHTable - missing verify key data %d", verifyKeySize)
+		}
+
 		t.verifyKey = make([]IKey, verifyKeySize)
 
 		// iterate each key
@@ -358,11 +369,18 @@ func (t *MPHTable) Lookup(s IKey) (n uint32, ok bool) {
 	i1 := int(s.HashUint32(collection.MurmurSeed(seed).Hash)) & t.level1Mask
 	n = t.level1[i1]
 	if t.verifyKey != nil {
+		// no key at this index in an empty table
+		if int(n) >= len(t.verifyKey) {
+			return n, false
+		}
 		return n, s.Equal(t.verifyKey[int(n)])
 	} else {
 		// verify by bloom filter key
 		// bloom filter key needs to be consistent for a given key, and can be different from actual key bytes
 		// different bloom key is a security measure, and is not required
+		if int(n) >= len(t.verifyHash) {
+			return n, false
+		}
 		verify_hash := s.HashUint32((collection.MurmurSeed)(t.verifySeed).Hash)
 		return n, verify_hash == t.verifyHash[int(n)]
 	}
-- 
2.43.0


From 5f87a290211794f521e99f00dc2c882b8084c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 27/40] fix: looking up a missing trie child must not panic

So no key could be added to a trie, or looked up without being there.
---
 src/util/trie_util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 29af67d..5ef0477 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -369,7 +369,9 @@ func (tn *MappedTrieNode) GetChild(nodeKey []byte) ITrieNode {
 		return nil
 	}
 
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	// nil if there is no such child
+	child, _ := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	return child
 }
 
 func (tn *MappedTrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
@@ -837,7 +839,9 @@ func (tn *TrieNode) ChildSize() int {
 }
 
 func (tn *TrieNode) GetChild(nodeKey []byte) ITrieNode {
-	return tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	// nil if there is no such child
+	child, _ := tn.children.Get(collection.NewComparableByteSlice(nodeKey)).(ITrieNode)
+	return child
 }
 
 func (tn *TrieNode) PutChild(nodeKey []byte, n ITrieNode) error {
-- 
2.43.0


From 116b2ce35bcb486d238f89000909844106ae3120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 28/40] fix: clearing a trie key must keep the keys below it

The node was removed with all of its children, and removing the last key of a
trie went on to the parent of the root.
---
 src/util/trie_util.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 5ef0477..ff5b093 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -608,9 +608,7 @@ func (t *Trie) Set(k IKey, d IValue) IValue {
 	t.estBufSize += estimateValueBufSize(d) - estimateValueBufSize(resultValue)
 	// if d is nil, clean up unused nodes
 	if d == nil {
-		currNode.Parent().RemoveChild(currNode.NodeKey())
-		t.estBufSize -= currNode.EstBufSize()
-		for currNode = currNode.Parent(); currNode.ChildSize() == 0 && currNode.Value() == nil; {
+		for currNode.ChildSize() == 0 && currNode.Value() == nil && currNode.Parent() != nil {
 			currNode.Parent().RemoveChild(currNode.NodeKey())
 			t.estBufSize -= currNode.EstBufSize()
 			currNode = currNode.Parent()
-- 
2.43.0


From cfe1f2130ad39b4b6cd47c6ea2af7a81345f1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 29/40] fix: failing to decode a mapped trie node must be
 reported

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index ff5b093..a8e8490 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -291,7 +291,7 @@ func NewMappedTrieNode(parent ITrieNode, buf []byte, offset uint32, known_nodes
 
 	length, err := result.Decode(nil)
 	if err != nil {
-		fmt.Errorf("NewMappedTrieNode - %s", err)
+		return nil, length, fmt.Errorf("NewMappedTrieNode - %s", err)
 	}
 
 	return result, length, nil
-- 
2.43.0


From 99564e4d539374a71a6c4b95567719eb51dcb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:26 +0000
Subject: [PATCH 30/40] fix: trie encoding must report the errors of its nodes

---
 src/util/trie_util.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index a8e8490..66067c4 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -670,8 +670,12 @@ func (t *Trie) Encode(ctx IContext) error {
 	pos := 0
 
 	// encode root node
-	t.root.SetOffset(uint32(pos))
-	t.root.Encode(ctx)
+	if err := t.root.SetOffset(uint32(pos)); err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
+	}
+	if err := t.root.Encode(ctx); err != nil {
+		return fmt.Errorf("Trie::Encode - %s", err)
+	}
 	if len(buf) > pos+len(t.root.Buf()) {
 		copy(buf[pos:], t.root.Buf())
 	} else {
@@ -687,8 +691,12 @@ func (t *Trie) Encode(ctx IContext) error {
 			// get next node, and encode
 			_, data := lastIter.Next()
 			node := data.(*TrieNode)
-			node.SetOffset(uint32(pos))
-			node.Encode(ctx)
+			if err := node.SetOffset(uint32(pos)); err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
+			}
+			if err := node.Encode(ctx); err != nil {
+				return fmt.Errorf("Trie::Encode - %s", err)
+			}
 
 			// encode node
 			if len(buf) > pos+len(node.Buf()) {
-- 
2.43.0


From ccf05d54a5b73c58221a2f642b30d29e9d1f8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:21 +0000
Subject: [PATCH 31/40] fix: refuse a loaded public key whose coordinate is
 outside the field

---
 src/util/lc_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/lc_util.go b/src/util/lc_util.go
index c52b712..8757590 100644
--- a/src/util/lc_util.go
+++ b/src/util/lc_util.go
@@ -264,7 +264,7 @@ func lc_load_pub_key(cls int, id string) (*ecdsa.PublicKey, error) {
 	}
 
 	pub_key := ECDSAGetPublicKey(data)
-	if pub_key.Y == nil {
+	if pub_key.Y == nil || !pub_key.Curve.IsOnCurve(pub_key.X, pub_key.Y) {
 		return nil, fmt.Errorf("[%s] public key is not on the curve", filepath)
 	}
 
-- 
2.43.0


From 9e7100d118fda436e6c6380e3871598d8430ba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 32/40] fix: report a failure to close a file

---
 src/util/fsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/fsync.go b/src/util/fsync.go
index 873e8d8..c6f7ece 100644
--- a/src/util/fsync.go
+++ b/src/util/fsync.go
@@ -36,5 +36,5 @@ func Sync(f *os.File) {
 }
 
 func Close(f *os.File) {
-	f.Close()
+	check(f.Close())
 }
-- 
2.43.0


From 4828966a39450c7c84cb3e55df300a62e1d4f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 33/40] fix: do not replace an alias that appeared after the
 user was asked

---
 src/main/pkeygen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/pkeygen.go b/src/main/pkeygen.go
index 1a96606..65f67e2 100644
--- a/src/main/pkeygen.go
+++ b/src/main/pkeygen.go
@@ -45,6 +45,7 @@ func generate_key_pair(cls int) (string, []byte, error) {
 func process_key(cls int, class string, alias string, force bool) {
 
     etc_dir         := util.LCGetEtcDir(cls)
+    overwrite       := force
     if alias != "" {
         alias_path  := etc_dir + "/" + alias
         if (check_path_exist(alias_path) && !force) {
@@ -52,6 +53,7 @@ func process_key(cls int, class string, alias string, force bool) {
             if (input != "y" && input != "Y") {
                 os.Exit(1)
             }
+            overwrite = true
         }
     }
 
@@ -78,7 +80,7 @@ func process_key(cls int, class string, alias string, force bool) {
 
     if alias != "" {
         alias_path  := etc_dir + "/" + alias
-        if check_path_exist(alias_path) {
+        if (overwrite && check_path_exist(alias_path)) {
             err := os.Remove(alias_path)
             if err != nil {
                 fmt.Printf("ERROR: %s\n", err)
-- 
2.43.0


From 76c8c3ebdb9890ef60087109cf0f02e2a6bbf59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 34/40] fix: half of the generated keys did not match the
 public key loaded from their file

A public key is saved as its X coordinate only and loading calculates Y. The
generated key had the other Y in half of the cases, so that nothing signed
with it verified with the loaded public key.
---
 src/util/ecdsa_util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/ecdsa_util.go b/src/util/ecdsa_util.go
index fa21d10..167da59 100644
--- a/src/util/ecdsa_util.go
+++ b/src/util/ecdsa_util.go
@@ -44,6 +44,10 @@ func ECDSAGenerateKey() *ecdsa.PrivateKey {
 		fmt.Println(err)
 		return nil
 	} else {
+		// a public key is saved as its X, the private key has to match the Y calculated from it
+		if ECDSACalculateY(curve, priv_key.X).Cmp(priv_key.Y) != 0 {
+			return ECDSAGetPrivateKey(new(big.Int).Sub(curve.Params().N, priv_key.D).Bytes())
+		}
 		return priv_key
 	}
 }
-- 
2.43.0


From 50e5796e035326acd00cd2a655df6134071345ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:49 +0000
Subject: [PATCH 35/40] fix: a hash table was verified under one of 15 seeds
 (2^16 is a xor)

---
 src/util/mph_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mph_util.go b/src/util/mph_util.go
index b3527b7..d0e7abc 100644
--- a/src/util/mph_util.go
+++ b/src/util/mph_util.go
@@ -287,7 +287,7 @@ func MPHBuild(keys []IKey, verify_by_key bool) *MPHTable {
 		sparseBuckets = make([][]int, len(level0))
 		zeroSeed      = collection.MurmurSeed(0)
 		keyArray      = make([]IKey, len(keys))
-		verifySeed    = uint32(RandUint64Range(2^16, 2^32-1))
+		verifySeed    = uint32(RandUint64Range(1<<16, 1<<32-1))
 	)
 	for i, s := range keys {
 		keyArray[i] = s
-- 
2.43.0


From a698d33df52ae6b77ed3c291d7753754454dca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 36/40] fix: the full key of a trie node included the root,
 which has no key, and could not be read

---
 src/util/trie_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 66067c4..1090e10 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -307,8 +307,9 @@ func (tn *MappedTrieNode) FullKey() IKey {
 	}
 
 	subKeys := []([]byte){}
-	for currNode := tn; currNode != nil; currNode = currNode.parent.(*MappedTrieNode) {
-		subKeys = append([]([]byte){currNode.nodeKey}, subKeys...)
+	var currNode ITrieNode
+	for currNode = tn; !collection.IsNil(currNode.Parent()); currNode = currNode.Parent() {
+		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
 	fullKey := NewKey()
@@ -816,7 +817,7 @@ func (tn *TrieNode) FullKey() IKey {
 
 	subKeys := []([]byte){}
 	var currNode ITrieNode
-	for currNode = tn; currNode != nil; currNode = currNode.Parent() {
+	for currNode = tn; !collection.IsNil(currNode.Parent()); currNode = currNode.Parent() {
 		subKeys = append([]([]byte){currNode.NodeKey()}, subKeys...)
 	}
 
-- 
2.43.0


From 4a70ccd6f7f6ae4e6338c0a79573d23505e2d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 37/40] fix: iterating a trie from a node below the first level
 panicked

---
 src/util/trie_util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index 1090e10..d1ea068 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1015,13 +1015,15 @@ func NewTrieKeyIterator(root, curr ITrieNode) *TrieKeyIterator {
 	if collection.IsNil(curr) {
 		result.currNode = root
 	} else {
+		node := root
 		for _, subKey := range curr.FullKey().Key() {
-			child := root.GetChild(subKey)
+			child := node.GetChild(subKey)
 			if collection.IsNil(child) {
 				panic(fmt.Sprintf("NewTrieIterator - curr node [%s] is not a child of root [%s]",
 					root.FullKey().ToString(),
 					curr.FullKey().ToString()))
 			}
+			node = child // traverse down
 		}
 		// we are here as curr is a descendent of root
 		result.currNode = curr
-- 
2.43.0


From e28208edc7bd46ef13a3ad454ecd2e9ccd034800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 38/40] fix: HasNext of a trie iterator was true when nothing
 was left, and false otherwise

---
 src/util/trie_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index d1ea068..c850c43 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1077,7 +1077,7 @@ func (i *TrieKeyIterator) HasNext() bool {
 
 	i.advance()
 
-	return collection.IsNil(i.currNode) && (collection.IsNil(i.paths) || len(i.paths) == 0)
+	return !collection.IsNil(i.currNode) || len(i.paths) != 0
 }
 
 func (i *TrieKeyIterator) Peek() (IKey, IValue) {
-- 
2.43.0


From fc8bee24d24709e67020ffd93a01280b007c9a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:05 +0000
Subject: [PATCH 39/40] fix: iterating the keys below a trie key took its value
 for the node

---
 src/util/trie_util.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index c850c43..e63458f 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -145,13 +145,15 @@ func (t *MappedTrie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			childNode := currNode.GetChild(subKey)
+			if collection.IsNil(childNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
+			currNode = childNode // traverse down
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
@@ -627,13 +629,15 @@ func (t *Trie) KeyIterator(k IKey) ITrieIterator {
 	if collection.IsNil(k) || k.IsEmpty() {
 		return NewTrieKeyIterator(t.root, t.root)
 	} else {
-		node := t.Get(k)
-		if collection.IsNil(node) {
-			return &TrieKeyIterator{} // return an empty iterator
-		} else {
-			currNode := node.(ITrieNode)
-			return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
+		currNode := t.root
+		for _, subKey := range k.Key() {
+			childNode := currNode.GetChild(subKey)
+			if collection.IsNil(childNode) {
+				return &TrieKeyIterator{} // return an empty iterator
+			}
+			currNode = childNode // traverse down
 		}
+		return NewTrieKeyIterator(t.root, currNode) // return an iterator starting with given node
 	}
 }
 
-- 
2.43.0


From 49421bd9aa333b61755f443e3a77b999db182053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:33 +0000
Subject: [PATCH 40/40] fix: iterating a range of a trie never came to an end

---
 src/util/trie_util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/trie_util.go b/src/util/trie_util.go
index e63458f..d76b80d 100644
--- a/src/util/trie_util.go
+++ b/src/util/trie_util.go
@@ -1248,9 +1248,9 @@ func (i *TrieRangeIterator) Next() (IKey, IValue) {
 			// create child iterator and add to paths
 			iter := i.rootNode.Children().Iterator()
 			i.paths = append(i.paths, iter)
-			i.isRoot = false
 
 		}
+		i.isRoot = false
 
 		i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
 		return returnNode.FullKey(), returnNode.Value()
@@ -1274,6 +1274,8 @@ func (i *TrieRangeIterator) Next() (IKey, IValue) {
 
 			i.checkEnd() // this method by pass any unnessary last iterators if they passed end key
 			return returnNode.FullKey(), returnNode.Value()
+		} else {
+			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
 		}
 	}
 
@@ -1318,6 +1320,8 @@ func (i *TrieRangeIterator) Peek() (IKey, IValue) {
 
 			returnNode := data.(ITrieNode)
 			return returnNode.FullKey(), returnNode.Value()
+		} else {
+			i.paths = i.paths[:len(i.paths)-1] // destack if no more element left
 		}
 	}
 
@@ -1415,6 +1419,11 @@ func (i *TrieRangeIterator) checkEnd() {
 			len(i.endMatches)))
 	}
 
+	// destack iterators with no element left
+	for len(i.paths) != 0 && !i.paths[len(i.paths)-1].HasNext() {
+		i.paths = i.paths[:len(i.paths)-1]
+	}
+
 	if len(i.endNodes) == 0 {
 		return
 	}
-- 
2.43.0

