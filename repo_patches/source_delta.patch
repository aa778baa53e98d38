From 947baf52a04a432811cf63cc97d54a19f6abb4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 01/32] fix: key search must stop at the end of the addressed
 object

A key that is missing from the addressed object was searched on in the
containers that follow it, so Get("o","b") on
{"o":{"a":1},"p":{"x":1,"b":2}} returned 2.
---
 inter_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..5e89dc9 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -314,7 +314,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										if innerLevel <= k+1 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -374,7 +374,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						if level <= k+1 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
-- 
2.43.0


From 84b89998ceed992096cc184b05ab27b7ecdc009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 02/32] fix: a path that runs through a scalar member addresses
 nothing

The search went on into the next container of the document, so
Get("a","c") on {"a":1,"b":{"c":2}} returned 2.
---
 inter_core.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index 5e89dc9..d787fab 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -265,6 +265,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// rest of the path needs a container
+										next := i + 1
+										for next < len(json) && space(json[next]) {
+											next++
+										}
+										if next < len(json) && json[next] != 91 && json[next] != 123 {
+											return -1, -1, -1, errKeyNotFound(path[k+1])
+										}
 										continue
 									}
 								}
-- 
2.43.0


From b7f9766778d3e8a08014e6388695d6483b6ccac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 03/32] fix: index 0 of an empty array is an error for the type
 functions too

IsValue, IsArray and IsObject reported a type for element 0 of [].
---
 inter_core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inter_core.go b/inter_core.go
index d787fab..6566313 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -78,6 +78,9 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							if k != len(path)-1 {
 								return -1, -1, -1, errIndexOutOfRange()
 							}
+							if curr == 93 {
+								return -1, -1, -1, errEmptyArray()
+							}
 							break
 						}
 					}
-- 
2.43.0


From 41d3a63fdb9f91a131082d653e49f6656389b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 04/32] fix: text of a string that looks like a container is
 not a container

AddKeyValue, Add and Insert edited the inside of string values such as
"{}" or "[1]", and IsEmpty judged it.
---
 inter_add.go  | 6 +++---
 inter_type.go | 3 +++
 utils.go      | 6 ++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..4da4a13 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -48,7 +48,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, err
 		}
 	}
-	if json[start] == 123 && json[end-1] == 125 {
+	if json[start] == 123 && json[end-1] == 125 && !quoted(json, start, end) {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -118,7 +118,7 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, err
 		}
 	}
-	if json[start] == 91 && json[end-1] == 93 {
+	if json[start] == 91 && json[end-1] == 93 && !quoted(json, start, end) {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -178,7 +178,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
-	if json[start] != 91 || json[end-1] != 93 {
+	if json[start] != 91 || json[end-1] != 93 || quoted(json, start, end) {
 		return json, errArrayExpected()
 	}
 	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
diff --git a/inter_type.go b/inter_type.go
index fd8015a..ca4828c 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -111,6 +111,9 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		if quoted(json, start, end) {
+			return false, errObjectExpected()
+		}
 		end--
 	}
 	braceStart := json[start]
diff --git a/utils.go b/utils.go
index 09ff21e..198558f 100755
--- a/utils.go
+++ b/utils.go
@@ -13,6 +13,12 @@ func replace(json, newValue []byte, start, end int) []byte {
 	return newJSON
 }
 
+// quoted reports that start and end, as located by core(), enclose the
+// content of a string value.
+func quoted(json []byte, start, end int) bool {
+	return start > 0 && end < len(json) && json[start-1] == 34 && json[end] == 34
+}
+
 func space(curr byte) bool {
 	// space
 	if curr == 32 {
-- 
2.43.0


From 8ab9d3672850eb5ece56b6ec65c009ad665d3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 05/32] fix: Insert before the last element of a spaced array

Insert([1, 2], 1, x) wrote [1,,x 2].
---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 4da4a13..0589dcc 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -221,9 +221,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	}
 	if json[startEdge] == 44 {
 		val := make([]byte, 0, len(value)+1)
-		val = append(val, 44)
 		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
+		val = append(val, 44)
+		json = replace(json, val, start, start)
 		return json, nil
 	}
 	return json, errBadJSON(start)
-- 
2.43.0


From 92930b03988656cb5310573950ffebb3f0445609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 06/32] fix: sized integer variants of AddKeyValue, Add and
 Insert write decimals

They passed the bit size as the number base: 32 wrote base 32 digits,
64 panicked.
---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 0589dcc..87e98c9 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -253,7 +253,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -262,7 +262,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -271,7 +271,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -280,7 +280,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -289,7 +289,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -328,31 +328,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -394,7 +394,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -403,7 +403,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -412,7 +412,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -421,7 +421,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -430,7 +430,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From 432cd289f31a4e3d41c797c0c5c61620e730e257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 07/32] fix: IsObject is false for arrays

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index ca4828c..dfe3992 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 9c5d6b84257e7ce57c3233ed2e1f75e8a6d698ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 08/32] fix: failing AddKeyValueString and InsertString return
 the document

They returned nil, and their JO variants stored it: the document was lost.
---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 87e98c9..31c3c59 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -233,7 +233,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -374,7 +374,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From 781e20e0cba53d4b3e8038c58bd3cf11fa623b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 09/32] fix: getStartEnd returns the same kind of end with and
 without a path

GetMap read the byte after the addressed value, so it failed unless that
byte happened to be a brace too, and Length([5]) was 0.
---
 inter_get.go | 4 ++--
 utils.go     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 369126f..05fb679 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -599,7 +599,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		return nil, err
 	}
 	mainMap := make(map[string]string)
-	if json[start] == 123 && json[end] == 125 {
+	if json[start] == 123 && json[end-1] == 125 && !quoted(json, start, end) {
 		err = IterateKeyValue(json, func(key, val []byte) (bool, error) {
 			mainMap[string(key)] = string(val)
 			return true, nil
@@ -609,7 +609,7 @@ func GetMap(json []byte, path ...string) (map[string]string, error) {
 		}
 		return mainMap, nil
 	}
-	if json[start] == 91 && json[end] == 93 {
+	if json[start] == 91 && json[end-1] == 93 && !quoted(json, start, end) {
 		count := 0
 		err = IterateArray(json, func(val []byte) (bool, error) {
 			mainMap[strconv.Itoa(count)] = string(val)
diff --git a/utils.go b/utils.go
index 198558f..9ea5e63 100755
--- a/utils.go
+++ b/utils.go
@@ -184,6 +184,7 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 			end--
 			continue
 		}
+		end++
 	}
 	return start, end, nil
 }
-- 
2.43.0


From fd4244d90d963d902873243b2844ee9a586abc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 10/32] fix: IsEmpty looks at the last byte before the closing
 brace too

IsEmpty([5]) was true.
---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index dfe3992..be262cd 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -122,7 +122,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
-- 
2.43.0


From 4fe087de4cc41dc9fe744af89bafbb57f9c4323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 11/32] fix: do not write into the spare capacity of the
 caller's path

append(path, key) overwrote the caller's elements behind path, raced when
goroutines share a path, and made Walk change paths it had handed out.
---
 inter_add.go      | 5 ++---
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 utils.go          | 9 +++++++++
 walk.go           | 4 ++--
 6 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 31c3c59..6ccbf53 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -60,8 +60,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
-		_, _, _, err = core(json, false, path...)
+		_, _, _, err = core(json, false, appendPath(path, key)...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
 				val := []byte(`,"` + key + `":` + string(value))
@@ -181,7 +180,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 || quoted(json, start, end) {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, appendPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index 05fb679..14ea658 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -631,7 +631,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -647,7 +647,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, appendPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index f32c914..47cd875 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..e4c29c8 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, appendPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
diff --git a/utils.go b/utils.go
index 9ea5e63..512a978 100755
--- a/utils.go
+++ b/utils.go
@@ -13,6 +13,15 @@ func replace(json, newValue []byte, start, end int) []byte {
 	return newJSON
 }
 
+// appendPath returns path with one more element, in an array of its own:
+// the array behind path belongs to the caller.
+func appendPath(path []string, last string) []string {
+	newPath := make([]string, len(path)+1)
+	copy(newPath, path)
+	newPath[len(path)] = last
+	return newPath
+}
+
 // quoted reports that start and end, as located by core(), enclose the
 // content of a string value.
 func quoted(json []byte, start, end int) bool {
diff --git a/walk.go b/walk.go
index 2c13fbd..b9c2ba0 100644
--- a/walk.go
+++ b/walk.go
@@ -20,7 +20,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, appendPath(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +32,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, appendPath(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 65b4bc52c7fe904609fea11fa79d03ccf1e55618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 12/32] fix: cleanValueString trims single byte values and
 survives blank ones

GetValues({"a":1 }) returned "1 " and GetIntArray of [] panicked.
---
 utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils.go b/utils.go
index 512a978..6642959 100755
--- a/utils.go
+++ b/utils.go
@@ -119,14 +119,14 @@ func isInt(val string) bool {
 func cleanValueString(str string) string {
 	start := 0
 	lens := len(str)
-	for space(str[start]) && start < lens-1 {
+	for start < lens && space(str[start]) {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for end > start && space(str[end]) {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -152,7 +152,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From 8e464d5c52e3c11e653b2f9d795ca7d77232ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 13/32] fix: typed array getters and ParseArray accept empty
 arrays

GetIntArray, GetFloatArray and GetBoolArray failed on [] and ParseArray
reported one element for [ ].
---
 inter_get.go |  9 +++++++++
 others.go    |  3 +++
 parse_get.go |  9 +++++++++
 utils.go     | 10 ++++++++++
 4 files changed, 31 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 14ea658..d7fabe8 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,9 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +206,9 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +275,9 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index f35b3c2..b2ca36b 100755
--- a/others.go
+++ b/others.go
@@ -215,6 +215,9 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							if len(newArray) == 0 && blank([]byte(val)) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..60dfe2c 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,9 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +231,9 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +300,9 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							if len(newArray) == 0 && blank([]byte(element)) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/utils.go b/utils.go
index 6642959..3a1344f 100755
--- a/utils.go
+++ b/utils.go
@@ -48,6 +48,16 @@ func space(curr byte) bool {
 	return false
 }
 
+// blank reports that there is nothing but space in val.
+func blank(val []byte) bool {
+	for _, curr := range val {
+		if !space(curr) {
+			return false
+		}
+	}
+	return true
+}
+
 func createTabs(n int) []byte {
 	res := make([]byte, n)
 	for i := range res {
-- 
2.43.0


From e7178db07f50d7e4d1f31419257042fd59722373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 14/32] fix: iterating an empty container makes no callback

The callback was given one value that is not there, for every empty array
and object but a bare [] or {}.
---
 inter_iter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..96e7893 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -38,6 +38,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 		return errArrayExpected()
 	}
 	start++
+	first := start
 	inQuote := false
 	level := 0
 	for i := start; i < len(json); i++ {
@@ -77,6 +78,9 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						if start == first && blank(json[start:i]) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
@@ -176,6 +180,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							if key == nil {
+								return nil
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
-- 
2.43.0


From a0b7eef4bc25e721d681783a044a3a5df31e9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 15/32] fix: IterateKeyValue reports the callback's error for
 the last member too

---
 inter_iter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 96e7893..c68777b 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -196,11 +196,11 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								}
 							}
 							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-- 
2.43.0


From 5fa6dac74f23eb109278d9ffb885023f4699b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 16/32] fix: IterateKeyValue trims the space behind a one byte
 value

---
 inter_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_iter.go b/inter_iter.go
index c68777b..4fd83b6 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -218,7 +218,7 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
-- 
2.43.0


From a5e85928bf9421462911f09f76714ba6306ea22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 17/32] fix: GetValues and GetKeysValues of an empty object
 return no value

---
 inter_get.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index d7fabe8..223d1b1 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -435,6 +435,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		open := start
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -470,6 +471,9 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if start == open {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
@@ -527,6 +531,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		open := start
 		keyStart := 0
 		keyEnd := 0
 		inQuote := false
@@ -569,6 +574,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						if start == open {
+							break
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
 						break
-- 
2.43.0


From b1057452bd4368e27f2a6d513691ff1397a0d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 18/32] fix: JO.StoreString stores a string

It stored the bare text: StoreString("k", "eco") wrote {"k":eco}.
---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index e4c29c8..64a41b8 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From 993382d4f70f4ed36b751e6a0b1bcab9cdc37106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 19/32] fix: text is written as a number only if it is a JSON
 number

Strings such as NaN, Inf, +5, .5, 01.5 and 0x1p-2 were written unquoted,
which is not JSON.
---
 utils.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/utils.go b/utils.go
index 3a1344f..7059fc4 100755
--- a/utils.go
+++ b/utils.go
@@ -83,13 +83,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isFloat(val) && isNumber(val) {
 		return val
 	}
 	if val == "null" {
@@ -121,9 +115,42 @@ func isFloat(val string) bool {
 	return err == nil
 }
 
-func isInt(val string) bool {
-	_, err := strconv.ParseInt(val, 10, 32)
-	return err == nil
+// isNumber reports that val is a number as JSON writes it.
+func isNumber(val string) bool {
+	digits := func(i int) int {
+		for i < len(val) && val[i] >= '0' && val[i] <= '9' {
+			i++
+		}
+		return i
+	}
+	i := 0
+	if i < len(val) && val[i] == '-' {
+		i++
+	}
+	start := i
+	i = digits(i)
+	if i == start || (val[start] == '0' && i > start+1) {
+		return false
+	}
+	if i < len(val) && val[i] == '.' {
+		start = i + 1
+		i = digits(start)
+		if i == start {
+			return false
+		}
+	}
+	if i < len(val) && (val[i] == 'e' || val[i] == 'E') {
+		i++
+		if i < len(val) && (val[i] == '+' || val[i] == '-') {
+			i++
+		}
+		start = i
+		i = digits(i)
+		if i == start {
+			return false
+		}
+	}
+	return i == len(val)
 }
 
 func cleanValueString(str string) string {
-- 
2.43.0


From 4f370eb536611920d9cba7fc4e0027fd4699a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 20/32] fix: MakeArrayFloat with whole numbers

It still looked for the exponent of the old notation: 1 panicked, 10 was
written as nothing.
---
 make.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..1357352 100755
--- a/make.go
+++ b/make.go
@@ -255,19 +255,7 @@ func MakeArrayFloat(values []float64) []byte {
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
-- 
2.43.0


From e03deec31f3a97bda40fa4841c1be78d083cfd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 21/32] fix: builders close what they open when given empty,
 non nil arguments

MakeArrayInt([]int{}) returned ], a Scheme with all keys removed made }.
---
 make.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/make.go b/make.go
index 1357352..802193a 100755
--- a/make.go
+++ b/make.go
@@ -169,7 +169,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -187,7 +187,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -205,7 +205,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -223,7 +223,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -249,7 +249,7 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -267,7 +267,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -293,7 +293,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -316,7 +316,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -336,7 +336,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From 3f9aa91c6ca2248599189dd779af41196c49ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 22/32] fix: Indent tells an escaped quote from a quote behind
 an escaped backslash

A string that ends in \\\\ made it format the inside of the following
strings, and a document that starts with a quote panicked.
---
 others.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index b2ca36b..e91a70f 100755
--- a/others.go
+++ b/others.go
@@ -106,11 +106,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
-- 
2.43.0


From a70c5722b8ac5cfeba723ebf6bf2653afcb6becc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 23/32] fix: MutateJson and MutateJsonAbs keep strings strings

The quotes were dropped and guessed back: {"a":"28"} became {"a":28}
and strings such as [x] became invalid JSON.
---
 make.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/make.go b/make.go
index 802193a..23edd7c 100755
--- a/make.go
+++ b/make.go
@@ -36,33 +36,44 @@ func (s *Scheme) MakeJsonString(values ...string) []byte {
 // MutateJson use for mutating a json to another json with a scheme.
 func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
-	var err, err2 error
-	var val string
+	var err error
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
-		val = formatType(val)
-		newJson, err2 = AddKeyValueString(newJson, k, val)
-		if err == nil {
-			if err2 != nil {
-				return nil, err
-			}
+		val, err = getRaw(json, k)
+		if err != nil {
+			val = []byte(`""`)
+		}
+		newJson, err = AddKeyValue(newJson, k, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return newJson, nil
 }
 
+// getRaw is Get() with the quotation marks of string values.
+func getRaw(json []byte, path ...string) ([]byte, error) {
+	_, start, end, err := core(json, false, path...)
+	if err != nil {
+		return nil, err
+	}
+	if quoted(json, start, end) {
+		return json[start-1 : end+1], nil
+	}
+	return json[start:end], nil
+}
+
 // MutateJsonAbs use for mutating a json to another json with a scheme.
 func (s *Scheme) MutateJsonAbs(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
 	var err error
-	var val string
+	var val []byte
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
+		val, err = getRaw(json, k)
 		if err != nil {
 			return nil, err
 		}
-		val = formatType(val)
-		newJson, err = AddKeyValueString(newJson, k, val)
+		newJson, err = AddKeyValue(newJson, k, val)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2fe541d15716ead9a2a4c0773aafbb2244a67961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 24/32] fix: Schemes do not share key arrays

Two Schemes made from one slice, and key lists a Scheme handed out, were
overwritten by Add.
---
 make.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/make.go b/make.go
index 23edd7c..806f5c5 100755
--- a/make.go
+++ b/make.go
@@ -18,6 +18,7 @@ type Scheme struct {
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
+	keys = append([]string(nil), keys...)
 	return &Scheme{keys: keys, originalKeys: keys}
 }
 
@@ -126,7 +127,7 @@ func (s *Scheme) Add(key string) bool {
 			return false
 		}
 	}
-	s.keys = append(s.keys, key)
+	s.keys = append(s.keys[:len(s.keys):len(s.keys)], key)
 	return true
 }
 
-- 
2.43.0


From 282c7362e83eccf1ca9e760cd0525fc3fb5c6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:16 +0000
Subject: [PATCH 25/32] fix: Walk stops when the callback returns false

---
 walk.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/walk.go b/walk.go
index b9c2ba0..d0a6b48 100644
--- a/walk.go
+++ b/walk.go
@@ -1,15 +1,24 @@
 package jin
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+)
+
+// errWalkStop carries the callback's wish to stop up to Walk().
+var errWalkStop = errors.New("walk stopped")
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
-	path := []string{}
-	return walk(j.body, path, callback)
+	return Walk(j.body, callback)
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	err := walk(json, path, callback)
+	if err == errWalkStop {
+		return nil
+	}
+	return err
 }
 
 func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
@@ -56,7 +65,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 			return err
 		}
 		if !keepGoing {
-			return nil
+			return errWalkStop
 		}
 	}
 	return nil
-- 
2.43.0


From 11d05303bc5ccc00d01df81c454ee7ce63f1580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 26/32] fix: Parse keeps the scalar of a one element array

Parse([5]) had no element, so Get("0") failed.
---
 parse_core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..a0c4f6b 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -87,6 +87,11 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					if !blank(json[valStart:i]) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
-- 
2.43.0


From 9a7f1b4828db9a2d724ed1dd635de2736bc3aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:14 +0000
Subject: [PATCH 27/32] fix: Parse reports unbalanced documents instead of
 panicking

Truncated documents were accepted, and panicked later in GetNew.
---
 parse_core.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parse_core.go b/parse_core.go
index a0c4f6b..96298fb 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,10 +22,10 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
+		start++
 		if start > len(json)-1 {
 			return nil
 		}
-		start++
 	}
 	for i := start; i < lenj; i++ {
 		curr := json[i]
@@ -79,6 +79,9 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				if core.up == nil {
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -99,6 +102,9 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				if start > end {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -119,5 +125,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	if core.up != nil {
+		// not everything that was opened is closed
+		return errBadJSON(lenj)
+	}
 	return nil
 }
-- 
2.43.0


From 71b987b1f7a9507bbc4671ef70aecae145a5b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 28/32] fix: Parser mutations keep the tree and the text in
 step

After a mutation the parser's node tree disagreed with its text: labels were
wrong after Delete and Insert, containers that were added or set could not be
navigated, a container set to a scalar kept its children, ancestors kept stale
text, an empty root got {,..} or [,..], padded documents were refused, the
duplicate key check looked at the siblings of the object, Insert(-1) panicked,
and errors of the text operation were dropped. Mutations now change the text
and rebuild the tree from it.
---
 parse_add.go    | 304 ++----------------------------------------------
 parse_delete.go |  19 +--
 parse_set.go    |  54 ++-------
 parse_utils.go  |  58 +++------
 4 files changed, 40 insertions(+), 395 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..911d904 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,334 +8,54 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := AddKeyValue(p.json, key, newVal, path...)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
-		if d.label == key {
-			return errKeyAlreadyExist(key)
-		}
-	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Add adds a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
+	json, err := Add(p.json, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // Insert inserts a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	json, err := Insert(p.json, newIndex, newVal, path...)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(json)
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_delete.go b/parse_delete.go
index 726979c..28ece43 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,16 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
-	lenp := len(path)
-	if lenp == 0 {
+	if len(path) == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
+	json, err := Delete(p.json, path...)
 	if err != nil {
 		return err
 	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(json)
 }
diff --git a/parse_set.go b/parse_set.go
index d257432..51a1fbc 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -7,47 +7,18 @@ import "strconv"
 // Path variable can not be null,
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenp == 0 {
+	if len(path) == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	json, err := Set(p.json, newVal, path...)
+	if err != nil {
+		return err
 	}
-	return nil
+	return p.update(json)
 }
 
 // SetString is a variation of Set() func.
@@ -104,14 +75,9 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 			return errKeyAlreadyExist(newKey)
 		}
 	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
+	json, err := SetKey(p.json, newKey, path...)
+	if err != nil {
+		return err
 	}
-	return nil
+	return p.update(json)
 }
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..f947659 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -2,7 +2,6 @@ package jin
 
 import (
 	"fmt"
-	"strconv"
 )
 
 type node struct {
@@ -20,11 +19,6 @@ type Parser struct {
 	json []byte
 }
 
-func createNode(up *node) *node {
-	Node := node{up: up}
-	return &Node
-}
-
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -68,43 +62,28 @@ func (n *node) dive(bytes []byte) []byte {
 
 // Parse is constructor method for creating Parsers.
 func Parse(json []byte) (*Parser, error) {
-	core := &node{up: nil}
-	err := pCore(json, core)
+	pars := Parser{}
+	err := pars.update(json)
 	if err != nil {
 		return nil, err
 	}
-	if core.down == nil {
-		return nil, errBadJSON(0)
-	}
-	core = core.down[0]
-	pars := Parser{core: core, json: json}
 	return &pars, nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
+// update makes json the document of the parser, with a tree that fits it.
+// On error the parser keeps what it has.
+func (p *Parser) update(json []byte) error {
+	core := &node{up: nil}
+	err := pCore(json, core)
+	if err != nil {
+		return err
 	}
-	return errIndexOutOfRange()
-}
-
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
-			newDown = append(newDown, d)
-		}
+	if core.down == nil {
+		return errBadJSON(0)
 	}
-	n.up.down = newDown
+	p.core = core.down[0]
+	p.json = json
+	return nil
 }
 
 func (n *node) walk(path []string) (*node, error) {
@@ -122,15 +101,6 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
-			return i
-		}
-	}
-	return -1
-}
-
 // Tree is a simple tool for visualizing JSONs as semi-tree formation.
 // This function returns that form as string.
 func (p *Parser) Tree() string {
-- 
2.43.0


From 98dd223e624fcece33c3f03615553badca7a53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 29/32] fix: damaged documents are errors, not panics

Trim loops ran over the end of blank input, and truncated or unbalanced input
led to out of range slices in iteration, key listing, Insert, Delete and
Indent.
---
 inter_add.go    |  5 ++++-
 inter_core.go   | 16 +++++++---------
 inter_delete.go |  4 ++--
 inter_get.go    | 24 ++++++++++++++++++------
 inter_iter.go   | 18 ++++++++++++++----
 inter_type.go   |  6 ++----
 utils.go        |  6 ++++--
 7 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 6ccbf53..74ed130 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -144,6 +144,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -187,7 +190,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
+	if end < len(json) && json[end] == 34 {
 		end++
 	}
 	var startEdge int
diff --git a/inter_core.go b/inter_core.go
index 6566313..396a82a 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -32,12 +32,11 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	}
 	// trim spaces of start
 	for space(json[offset]) {
+		offset++
 		// json length overflow control
 		if offset > len(json)-1 {
 			return -1, -1, -1, errBadJSON(offset)
 		}
-		offset++
-		continue
 	}
 	// braceType determine whether or not search will be a key search or index search
 	braceType := json[offset]
@@ -248,7 +247,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 						if curr == 58 {
 							// comp between current path and key
 							// length comp between current path and key
-							if len(currentPath) == end-start {
+							if start > 0 && len(currentPath) == end-start {
 								same := true
 								// compare all elements
 								for j := 0; j < len(currentPath); j++ {
@@ -408,13 +407,12 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
-		continue
+	}
+	// json length overflow control
+	if offset > len(json)-1 {
+		return -1, -1, -1, errBadJSON(offset)
 	}
 	if justStart {
 		return keyStart, offset, 0, nil
diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..fbcd969 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -18,10 +18,10 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	} else {
 		start = ks - 1
 	}
-	if json[start-1] == 34 {
+	if start > 0 && json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
diff --git a/inter_get.go b/inter_get.go
index 223d1b1..65955a8 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -323,15 +323,17 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return nil, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -394,6 +396,9 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyStart+1 > keyEnd {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -413,15 +418,17 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return nil, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -509,15 +516,17 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	if string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return nil, nil, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -586,6 +595,9 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 58 {
 					if level == 1 {
+						if keyStart+1 > keyEnd {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
diff --git a/inter_iter.go b/inter_iter.go
index 4fd83b6..658fcfa 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -17,11 +17,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-2 {
 				return errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -113,16 +112,18 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	if string(json) == "{}" {
 		return errEmpty()
 	}
+	if len(json) == 0 {
+		return errBadJSON(0)
+	}
 	var start int
 	var err error
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
@@ -183,6 +184,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 							if key == nil {
 								return nil
 							}
+							if blank(json[start:i]) {
+								return errBadJSON(i)
+							}
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -211,6 +215,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				}
 				if level == 1 {
 					if curr == 44 {
+						if blank(json[start:i]) {
+							return errBadJSON(i)
+						}
 						end = i - 1
 						for j := start; j < i; j++ {
 							if !space(json[j]) {
@@ -244,6 +251,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						if keyStart+1 > keyEnd {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
 						continue
diff --git a/inter_type.go b/inter_type.go
index be262cd..29ce84e 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -93,11 +93,10 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return false, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 		for space(json[end]) {
 			if end < 1 {
@@ -141,11 +140,10 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return false, -1, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 	} else {
 		_, start, _, err = core(json, true, path...)
diff --git a/utils.go b/utils.go
index 7059fc4..ca73775 100755
--- a/utils.go
+++ b/utils.go
@@ -59,6 +59,9 @@ func blank(val []byte) bool {
 }
 
 func createTabs(n int) []byte {
+	if n < 0 {
+		n = 0
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
@@ -216,11 +219,10 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 	} else {
 		for space(json[start]) {
+			start++
 			if start > len(json)-1 {
 				return -1, -1, errBadJSON(start)
 			}
-			start++
-			continue
 		}
 		end = lenj - 1
 		for space(json[end]) {
-- 
2.43.0


From 50988080325decefc67d48a73daea8c7acc2e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 30/32] fix: Parser.SetString quotes empty strings and strings
 with one quote at an end

---
 parse_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_set.go b/parse_set.go
index 51a1fbc..9b5db55 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -24,7 +24,7 @@ func (p *Parser) Set(newVal []byte, path ...string) error {
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
+	if len(newValue) < 2 || newValue[0] != 34 || newValue[len(newValue)-1] != 34 {
 		return p.Set([]byte(`"`+newValue+`"`), path...)
 	}
 	return p.Set([]byte(newValue), path...)
-- 
2.43.0


From c9825c32547276734508ada42ee8ebbcf39f7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 31/32] fix: a path into an empty document is reported as the
 lookup error it is

GetKeys, GetValues, GetKeysValues, GetMap, Length, IterateArray and
IterateKeyValue answered for the document {} or [] before looking at the path.
---
 inter_get.go  |  8 ++++----
 inter_iter.go | 10 ++++++----
 others.go     |  2 +-
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 65955a8..fce092f 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -320,7 +320,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 // Gets all keys that path has pointed.
 func GetKeys(json []byte, path ...string) ([]string, error) {
 	var keys []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	if len(json) == 0 {
@@ -415,7 +415,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 // Gets all values that path has pointed.
 func GetValues(json []byte, path ...string) ([]string, error) {
 	var values []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, errEmpty()
 	}
 	if len(json) == 0 {
@@ -513,7 +513,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	var values []string
 	var keys []string
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
 	if len(json) == 0 {
@@ -620,7 +620,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/inter_iter.go b/inter_iter.go
index 658fcfa..1adbf6c 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,10 +8,12 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
-			return nil
+		if len(path) == 0 {
+			if string(json) == "[]" {
+				return nil
+			}
+			return errBadJSON(0)
 		}
-		return errBadJSON(0)
 	}
 	var start int
 	var err error
@@ -109,7 +111,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 // It stripes quotation marks from string values befour return.
 // Path value can be left blank for access main JSON.
 func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), path ...string) error {
-	if string(json) == "{}" {
+	if len(path) == 0 && string(json) == "{}" {
 		return errEmpty()
 	}
 	if len(json) == 0 {
diff --git a/others.go b/others.go
index e91a70f..5710456 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
-- 
2.43.0


From dfbfaaee2e147024f0e9a5bdcc4e39d296d58f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:38 +0000
Subject: [PATCH 32/32] fix: Parse reports a bracket closed by one of the other
 kind

---
 parse_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_core.go b/parse_core.go
index 96298fb..9ccaccc 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -79,7 +79,7 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
-				if core.up == nil {
+				if core.up == nil || json[braceList.last()] != curr-2 {
 					return errBadJSON(i)
 				}
 				switch last {
-- 
2.43.0

