From 26d40bd0415b7b895452c6654706315e7244214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 01/25] fix: blob lengths 32768..65535 were read as negative
 numbers

---
 scouterx/common/netdata/datainputx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..7dff101 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -98,7 +98,7 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
-- 
2.43.0


From 43c4b059bc07447c08999869d6753e3b13340759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 02/25] fix: read blobs completely and validate received
 lengths

---
 scouterx/common/netdata/datainputx.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 7dff101..5755b4d 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -106,13 +106,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -166,6 +163,9 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
+	if err != nil {
+		return []byte{}, err
+	}
 	b, err := in.Read(length)
 	return b, err
 	//val := make([]byte, length)
@@ -176,14 +176,21 @@ func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	//return val, err
 }
 
+// Read returns exactly len bytes or an error. The buffer grows with the bytes
+// that really arrive, so a corrupted length never causes a huge allocation.
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] negative length:" + strconv.FormatInt(int64(len), 10))
+	}
 	in.offset += len
-	val := make([]byte, len)
-	_, err := in.reader.Read(val)
-	if err != nil {
-		val = []byte{}
+	if len == 0 {
+		return []byte{}, nil
+	}
+	var buf bytes.Buffer
+	if _, err := io.CopyN(&buf, in.reader, int64(len)); err != nil {
+		return []byte{}, err
 	}
-	return val, err
+	return buf.Bytes(), nil
 }
 
 func (in *DataInputX) ReadPack() (Pack, error) {
-- 
2.43.0


From 745652198626f1b9ba149991336c71a1b5c48331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 03/25] fix: decoding malformed values and packs panicked or
 looped beyond the data

---
 scouterx/common/netdata/datainputx.go         | 21 +++++++++++++++++--
 scouterx/common/netdata/listvalue.go          |  3 +++
 scouterx/common/netdata/mappack.go            |  6 ++++++
 scouterx/common/netdata/mapvalue.go           |  6 ++++++
 scouterx/common/netdata/objectpack.go         |  6 ++----
 .../common/netdata/perfcounter_k8s_pack.go    |  3 +--
 scouterx/common/netdata/perfcounterpack.go    |  3 +--
 7 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 5755b4d..a77bdf4 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -152,6 +152,9 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
@@ -161,6 +164,18 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 }
 
+// readMapValue reads a value that has to be a map
+func (in *DataInputX) readMapValue() (*MapValue, error) {
+	value, err := in.ReadValue()
+	if mapValue, ok := value.(*MapValue); ok {
+		return mapValue, err
+	}
+	if err == nil {
+		err = errors.New("[scouter] map value expected")
+	}
+	return NewMapValue(), err
+}
+
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
 	if err != nil {
@@ -199,8 +214,10 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.FormatUint(uint64(byte(packType)), 10))
+	}
+	return pack.Read(in)
 
 }
 
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..364f3f2 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -141,6 +141,9 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	for i := int64(0); i < size; i++ {
 		var value Value
 		value , err = in.ReadValue()
+		if err != nil {
+			break
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..83fc750 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			break
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			break
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..a6569fd 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			break
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			break
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..cd31554 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -90,8 +90,7 @@ func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
 	objectPack.Family, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	objectPack.Tags, err = in.readMapValue()
 
 	return objectPack, err
 }
@@ -105,8 +104,7 @@ func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	objectPack.Version, err = in.ReadString()
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	objectPack.Tags, err = in.readMapValue()
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..35f1331 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -61,8 +61,7 @@ func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
 	pack.MetricLevel, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	pack.Data, err = in.readMapValue()
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..8758681 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -37,8 +37,7 @@ func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	pack.Time, err = in.ReadInt64()
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	pack.Data, err = in.readMapValue()
 	return pack, err
 }
 
-- 
2.43.0


From 84c0769f5bf0545a002b6e66dca51cdea4d62e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 04/25] fix: IPv4 address values were decoded as blobs

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 892107900d6d05ae8ff2ec29656e67199e38a7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 05/25] fix: dump steps were sent with the method step type
 code

---
 scouterx/common/netdata/dumpstep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/dumpstep.go b/scouterx/common/netdata/dumpstep.go
index fcfd1e5..512b716 100644
--- a/scouterx/common/netdata/dumpstep.go
+++ b/scouterx/common/netdata/dumpstep.go
@@ -17,7 +17,7 @@ func NewDumpStep() *DumpStep {
 }
 
 func (s *DumpStep) GetStepType() byte {
-	return METHOD
+	return DUMP
 }
 
 func (s *DumpStep) Write(out *DataOutputX) error {
-- 
2.43.0


From 8e1ed5384765cf4169947cabf9a1bab1662243ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:57 +0000
Subject: [PATCH 06/25] fix: MapValue.Put silently dropped int values, losing
 the object status

---
 scouterx/common/netdata/mapvalue.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index a6569fd..97130a2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -69,17 +69,27 @@ func (mapValue *MapValue) GetValueType() byte {
 
 // Put add string value to map
 func (mapValue *MapValue) Put(key string, any interface{}) {
-	switch any.(type) {
+	switch t := any.(type) {
 	case string:
-		mapValue.Table[key] = NewTextValue(any.(string))
+		mapValue.Table[key] = NewTextValue(t)
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(t))
 	case int64:
-		mapValue.Table[key] = NewDecimalValue(any.(int64))
+		mapValue.Table[key] = NewDecimalValue(t)
 	case bool:
-		mapValue.Table[key] = NewBooleanValue(any.(bool))
+		mapValue.Table[key] = NewBooleanValue(t)
 	case float32:
-		mapValue.Table[key] = NewFloatValue(any.(float32))
+		mapValue.Table[key] = NewFloatValue(t)
 	case Value:
-		mapValue.Table[key] = any.(Value)
+		mapValue.Table[key] = t
+	case uint32:
+		mapValue.Table[key] = NewDecimalValue(int64(t))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(t))
+	case uint:
+		mapValue.Table[key] = NewDecimalValue(int64(t))
+	case uint64:
+		mapValue.Table[key] = NewDecimalValue(int64(t))
 	}
 
 }
-- 
2.43.0


From 872e4c8c2d4d5d96b863a9b9657a2c41c0b16f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 07/25] fix: caches: hold the lock for the whole of
 Size/GetValues/Empty and never re-acquire it

---
 scouterx/common/structure/cachemap/cachemap.go   | 10 +++++-----
 scouterx/common/structure/cachemap2/cachemap2.go | 12 ++++++------
 scouterx/common/structure/cacheset/cacheset.go   |  2 ++
 scouterx/common/structure/lra/lra.go             |  6 ++----
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..955d701 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -90,10 +88,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.table.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -104,5 +104,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..781d7c6 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -41,7 +39,7 @@ func New(maxSize int) *CacheMap {
 	once.Do(func() {
 		go func() {
 			for {
-				if m.ordering.Size() > m.maxSize/2 {
+				if m.Size() > m.maxSize/2 {
 					time.Sleep(500 * time.Millisecond)
 					//TODO
 				} else {
@@ -105,10 +103,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.ordering.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -121,5 +121,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..da16e74 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From d6bb2bb7be7cf0e98ba7bf36b04a61b16c74e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 08/25] fix: cachemap2.Remove also removes the key from the
 eviction order

---
 scouterx/common/structure/cachemap2/cachemap2.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 781d7c6..1fe8ef4 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -66,12 +66,11 @@ func (m *CacheMap) Add(key interface{}, item interface{}) {
 func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
-	delete(m.table, key)
-	//index, contains := m.orderPos[key]
-	//if contains {
-	//	m.ordering.Remove(index)
-	//	delete(m.orderPos, key)
-	//}
+	if _, contains := m.table[key]; contains {
+		delete(m.table, key)
+		delete(m.orderPos, key)
+		m.ordering.Remove(m.ordering.IndexOf(key))
+	}
 }
 
 func (m *CacheMap) removeExceeded() {
-- 
2.43.0


From d88e7b822153630ea81131743257bdf256203145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 09/25] fix: comma separated pattern lists compile their
 patterns, they matched nothing before

---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From 872246e7c83f3d9aae1e0d28c48151dc45401198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 10/25] fix: pattern parts must match disjoint parts of the
 name, in order

---
 scouterx/common/util/strmatch.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..0ce4ec6 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -93,9 +93,9 @@ func (m *StrMatch) include(target string) bool {
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
 	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
+		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)
 	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
 	case c_MID:
 		return strings.Contains(target, m.mid)
 	case c_MID_MID:
@@ -103,9 +103,9 @@ func (m *StrMatch) include(target string) bool {
 		if x < 0 {
 			return false
 		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
+		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
+		return strings.HasSuffix(target, m.end) && strings.Contains(target[:len(target)-len(m.end)], m.mid)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
-- 
2.43.0


From 1c28f98c301a3ca866f359ca49187491b87410b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:50 +0000
Subject: [PATCH 11/25] fix: throughput and error rate were reported under each
 other's name

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..ed94d9a 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -49,9 +49,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From 9fdff2695be28b91f39cb567a24735f28e48fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 12/25] fix: the transaction summary is built after the last
 profile flush, its totals missed those steps

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..48b0226 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -381,10 +381,10 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog := tctx.ToXlog(discardType, elapsed)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From 9d7327ecc6a4777579f7ff23a57e03db50746b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 13/25] fix: registering the object change observer takes the
 observer lock

---
 scouterx/conf/opserver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/conf/opserver.go b/scouterx/conf/opserver.go
index 827a32f..8308e59 100644
--- a/scouterx/conf/opserver.go
+++ b/scouterx/conf/opserver.go
@@ -18,6 +18,9 @@ func AddToConfObserver(name string, r Runnable) {
 }
 
 func AddObjChangedObserver(r Runnable) {
+	observerLock.Lock()
+	defer observerLock.Unlock()
+
 	objChangeObserver = r
 }
 
-- 
2.43.0


From 644ff66c624ec5b8e1c4c1e496fc11193b3f9fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 14/25] fix: environment entries without "=" crashed the
 configuration, values containing "=" were cut

---
 scouterx/conf/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..002ae6d 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,8 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
-			props.Set(pair[0], pair[1])
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) == 2 {
+				props.Set(pair[0], pair[1])
+			}
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-- 
2.43.0


From 93a1108a6ea90415a390eb7f23edce8c339cc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 15/25] fix: dump commands followed path separators in the
 requested file name out of the dump directory

---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..5765b94 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -246,8 +246,13 @@ func ListBinaryDumpFiles() netdata.Pack {
 	return pack
 }
 
+// isDumpFileName tells whether name denotes a file directly inside a dump directory
+func isDumpFileName(name string) bool {
+	return name != "" && name != "." && name != ".." && filepath.Base(name) == name
+}
+
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isDumpFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -284,7 +289,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isDumpFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -309,6 +314,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isDumpFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From 8ee762045733de7550090bd4c1d8232f0a4e891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 16/25] fix: the goroutine dump was not flushed to its file

---
 scouterx/dump/dump.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 5765b94..4a1fba8 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -68,8 +68,10 @@ func heavyAllStackTrace() (string, error) {
 	if fileName != "" {
 		f, err := os.Create(fileName)
 		if err == nil {
-			w = bufio.NewWriter(f)
+			bw := bufio.NewWriter(f)
+			w = bw
 			defer f.Close()
+			defer bw.Flush()
 		} else {
 			return "", err
 		}
-- 
2.43.0


From 1808f9ee99b7e2c7afc4f94a6e11b9069fd1195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 17/25] fix: reporting an agent panic could itself panic into
 the application

---
 scouterx/common/panic.go    | 4 +++-
 scouterx/netio/dataproxy.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..4768aa7 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,7 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
-		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		if fSendPanic != nil {
+			fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		}
 	}
 }
 
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..6159c04 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -45,7 +45,7 @@ func reportScouterPanicFinal() {
 }
 
 func SendPanic(message string) {
-	reportScouterPanicFinal()
+	defer reportScouterPanicFinal()
 	SendAlert(netdata.AlertFatal, "Panic", message)
 }
 
-- 
2.43.0


From 108e505258fe4b8708087aa9e64059b2a766ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 18/25] fix: the meters are read under the lock that protects
 their buckets

---
 scouterx/counter/serviceMetering.go | 3 +++
 scouterx/counter/valueMetering.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..b86ebe9 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,9 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
+
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..1774e17 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,9 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
+
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From 228602ebefcbf8dcd4f131b8a18f4a41cd1826f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 19/25] fix: GoWithTrace did not run the function when starting
 its trace failed

---
 scouterx/strace/tracemain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 48b0226..9c74b02 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -299,6 +299,8 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 }
 
 func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {
+	defer common.ReportScouterPanic()
+	ctx4Goroutine = ctx
 	if ctx == nil {
 		return ctx, nil
 	}
-- 
2.43.0


From e2bac96d0d1094f1a17c5100a8e45caf558f0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 20/25] fix: deeply nested values overflowed the stack when
 decoded

---
 scouterx/common/netdata/datainputx.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index a77bdf4..9e77cf5 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -12,8 +12,13 @@ import (
 type DataInputX struct {
 	offset int32
 	reader io.Reader
+	depth  int32
 }
 
+// maxValueDepth limits how deep received values may be nested in each other,
+// a stack overflow can not be recovered from.
+const maxValueDepth = 10000
+
 // NewDataInputX returns DataInputX instace
 func NewDataInputX(any interface{}) *DataInputX {
 	in := new(DataInputX)
@@ -159,7 +164,12 @@ func (in *DataInputX) ReadValue() (Value, error) {
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
 	}
+	if in.depth >= maxValueDepth {
+		return NewNilValue(), errors.New("[scouter] values nested too deep")
+	}
+	in.depth++
 	readValue, err := value.Read(in)
+	in.depth--
 	return readValue, err
 
 }
-- 
2.43.0


From ead0507f56978aaa9ce5927f92fc93e42c7d2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 21/25] fix: a service start that failed handed the application
 a nil context

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 9c74b02..4395999 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -155,6 +155,7 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if ctx == nil {
 		return context.Background()
 	}
+	newCtx = ctx //never hand nil to the caller, even if the start fails
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -213,6 +214,7 @@ func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx con
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx //never hand nil to the caller, even if the start fails
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -233,6 +235,7 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx //never hand nil to the caller, even if the start fails
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From d52552177c5746a6b18cfec4e1995d5f973f3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:24 +0000
Subject: [PATCH 22/25] fix: an unopenable agent log file ended the application

---
 scouterx/common/logger/logger.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..406452e 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -3,6 +3,7 @@ package logger
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"path/filepath"
@@ -14,9 +15,12 @@ func Init() {
 	logPath := filepath.Join(p, "logs")
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
+	var logfile io.Writer
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		//the agent must not end the application because of its own log file
+		log.Println("[scouter] cannot open log file")
+		logfile = ioutil.Discard
 	}
 
 	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-- 
2.43.0


From a0b7f62efd00390727b95a0e75815310b7096077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:46 +0000
Subject: [PATCH 23/25] fix: dump: do not treat the path separator alone as a
 dump file name

---
 scouterx/dump/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 4a1fba8..dc5374b 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -250,7 +250,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 
 // isDumpFileName tells whether name denotes a file directly inside a dump directory
 func isDumpFileName(name string) bool {
-	return name != "" && name != "." && name != ".." && filepath.Base(name) == name
+	return name != "" && name != "." && name != ".." && name != string(filepath.Separator) && filepath.Base(name) == name
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-- 
2.43.0


From 86593fef86ab8c0da8d4b4e55e862a676c9adcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:47 +0000
Subject: [PATCH 24/25] fix: dump: listing survives a file that vanishes while
 it is listed

---
 scouterx/dump/dump.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index dc5374b..4ce6ad3 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -217,7 +217,7 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() {
+		if info != nil && !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))
@@ -238,7 +238,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
+		if info != nil && !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 		}
-- 
2.43.0


From ee4fa15575d6ef5cd553f416e1c157009dbcf334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:41 +0000
Subject: [PATCH 25/25] fix: propagation headers of a reused request kept their
 former ids

---
 scouterx/strace/tracemain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 4395999..62bf7a5 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -561,10 +561,10 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
-		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
-		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
-		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-		req.Header.Add(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
+		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
+		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
+		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
+		req.Header.Set(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
 	}
 
 	return step
-- 
2.43.0

