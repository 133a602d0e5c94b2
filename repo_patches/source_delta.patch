From 0beba418cdc0ff52f42407d9cec23993b99a4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:11 +0000
Subject: [PATCH 01/73] fix: return the removed index to the handle table free
 list

---
 abi/types/handle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/types/handle.go b/abi/types/handle.go
index a4a41a1..b360d5c 100644
--- a/abi/types/handle.go
+++ b/abi/types/handle.go
@@ -59,7 +59,7 @@ func (ht *HandleTable) Remove(rt ResourceType, i uint32) (*HandleElem, error) {
 		return nil, TrapWith("handle table end count != 0")
 	}
 	ht.Array[i] = nil
-	ht.Free = stack.Push(ht.Free, uint32(len(ht.Free)))
+	ht.Free = stack.Push(ht.Free, i)
 	if h.Scope != nil {
 		h.Scope.RemoveBorrowFromTable()
 	}
-- 
2.43.0


From af9b3fbfe947d43f109b71c01f1a8f933418241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:12 +0000
Subject: [PATCH 02/73] fix: keep the order of values lifted from a spilled
 tuple

---
 abi/io/canon_lift.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index 925670a..b371d59 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -2,6 +2,7 @@ package io
 
 import (
 	"fmt"
+	"strconv"
 
 	"github.com/patrickhuber/go-wasm/abi/kind"
 	"github.com/patrickhuber/go-wasm/abi/types"
@@ -136,8 +137,8 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 	}
 
 	values := []any{}
-	for _, v := range m {
-		values = append(values, v)
+	for i := range ts {
+		values = append(values, m[strconv.Itoa(i)])
 	}
 	return values, nil
 }
-- 
2.43.0


From 35dcf30da16c7e7c7c123c443138c91b127da308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:13 +0000
Subject: [PATCH 03/73] fix: store spilled values and pass their pointer as a
 core value

---
 abi/io/canon_lower.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index f3e3143..bc04366 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -136,5 +136,9 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr+size > uint32(cx.Options.Memory.Len()) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
-	return []any{ptr}, nil
+	err = Store(cx, tupleValue, tupleType, ptr)
+	if err != nil {
+		return nil, err
+	}
+	return []any{values.U32(ptr)}, nil
 }
-- 
2.43.0


From c53021e67c4ee89dd0abb1096f409c54a07f2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:14 +0000
Subject: [PATCH 04/73] fix: support own and borrow handles when storing to
 memory

---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 54e959c..95f5886 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -67,6 +67,18 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		return StoreVariant(c, val, ptr, vt)
 	case types.Flags:
 		return StoreFlags(c, val, ptr, vt)
+	case types.Own:
+		i, err := LowerOwn(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
+	case types.Borrow:
+		i, err := LowerBorrow(c, val, vt)
+		if err != nil {
+			return err
+		}
+		return StoreInt(c, i, ptr, SizeOfU32, false)
 	}
 	return types.TrapWith("Store: unrecognized type %T", t)
 }
-- 
2.43.0


From 9108baeae3bd250f2207611eddcb5707943d2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:15 +0000
Subject: [PATCH 05/73] fix: trap when a borrowed handle is lifted as an owned
 handle

---
 abi/io/lift.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index 79abc1a..cf0142d 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -9,6 +9,13 @@ import (
 )
 
 func LiftOwn(cx *types.CallContext, i uint32, own types.Own) (uint32, error) {
+	elem, err := cx.Instance.Handles.Get(own.ResourceType(), i)
+	if err != nil {
+		return 0, err
+	}
+	if !elem.Own {
+		return 0, types.TrapWith("handle %d is borrowed and can not be lifted as owned", i)
+	}
 	h, err := cx.Instance.Handles.Remove(own.ResourceType(), i)
 	if err != nil {
 		return 0, err
-- 
2.43.0


From 87002cd26c42e5cc8c966f7bb5462fed1ba1c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:42 +0000
Subject: [PATCH 06/73] fix: block re-entry while an imported function is
 called

---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index bc04366..26098e5 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -30,6 +30,9 @@ func CanonLower(
 	if !inst.MayEnter {
 		return nil, fmt.Errorf("CanonLower : ComponentInstance MayLeave must be true")
 	}
+	if callingImport {
+		inst.MayEnter = false
+	}
 	args, err := collections.Select(flatArgs, func(source any) (values.Value, error) {
 		result, ok := any(source).(values.Value)
 		if !ok {
-- 
2.43.0


From 067861e378868ba4ab0387cf9f032b6ccfc4d1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:43 +0000
Subject: [PATCH 07/73] fix: fail calls that end while still holding borrowed
 handles

---
 abi/io/canon_lift.go  | 4 ++++
 abi/io/canon_lower.go | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index b371d59..cdc200d 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -65,6 +65,10 @@ func CanonLift(
 		return nil, nil, err
 	}
 
+	if cx.BorrowCount != 0 {
+		return nil, nil, types.TrapWith("%d borrowed handles were not dropped before the end of the call", cx.BorrowCount)
+	}
+
 	postResult := func() {
 		if opts.PostReturn != nil {
 			// python code has this set as:
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 26098e5..1db7632 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -63,7 +63,10 @@ func CanonLower(
 	inst.MayLeave = true
 
 	postReturn()
-	cx.ExitCall()
+	err = cx.ExitCall()
+	if err != nil {
+		return nil, err
+	}
 
 	if callingImport {
 		inst.MayEnter = true
-- 
2.43.0


From d67204090a41aa5810fade2c29c9183be29eb009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:44 +0000
Subject: [PATCH 08/73] fix: dropping a resource implemented by the host does
 not panic

---
 abi/io/canon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/io/canon.go b/abi/io/canon.go
index fcdfdd9..35a14cc 100644
--- a/abi/io/canon.go
+++ b/abi/io/canon.go
@@ -26,7 +26,7 @@ func CanonResourceDrop(inst *types.ComponentInstance, rt types.ResourceType, i u
 	if !h.Own {
 		return nil
 	}
-	if inst != rt.Impl() && !rt.Impl().MayEnter {
+	if rt.Impl() != nil && inst != rt.Impl() && !rt.Impl().MayEnter {
 		return types.TrapWith("ComponentInstance != ResourceType.Impl and ResourceType.Impl.MayEnter == false")
 	}
 	if rt.DTor() != nil {
-- 
2.43.0


From 4dbd40ee61e4664879ee045195fbfb097d474ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:53 +0000
Subject: [PATCH 09/73] fix: check memory ranges without 32-bit wraparound

---
 abi/io/canon_lift.go  |  2 +-
 abi/io/canon_lower.go |  2 +-
 abi/io/load.go        | 16 ++++++++++------
 abi/io/store.go       | 25 +++++++++++++++++++++----
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/abi/io/canon_lift.go b/abi/io/canon_lift.go
index cdc200d..ffee2d7 100644
--- a/abi/io/canon_lift.go
+++ b/abi/io/canon_lift.go
@@ -126,7 +126,7 @@ func LiftValues(cx *types.CallContext, maxFlat int, vi values.ValueIterator, ts
 		return nil, err
 	}
 
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(size) > uint64(cx.Options.Memory.Len()) {
 		return nil, types.TrapWith("ptr %d + offset %d is greater than len(memory) %d", ptr, size, cx.Options.Memory.Len())
 	}
 
diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 1db7632..690cb8b 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -139,7 +139,7 @@ func LowerValuesToTuple(ts []types.ValType, vs []any, outParam values.ValueItera
 	if ptr != align {
 		return nil, fmt.Errorf("ptr %d does not align to %d", ptr, align)
 	}
-	if ptr+size > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(size) > uint64(cx.Options.Memory.Len()) {
 		return nil, fmt.Errorf("ptr %d is greater than memory size %d", ptr+size, cx.Options.Memory.Len())
 	}
 	err = Store(cx, tupleValue, tupleType, ptr)
diff --git a/abi/io/load.go b/abi/io/load.go
index 9be637e..222037a 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -135,6 +135,9 @@ func LoadInt(c *types.CallContext, ptr uint32, t types.ValType) (any, error) {
 	if err != nil {
 		return nil, err
 	}
+	if uint64(ptr)+uint64(size) > uint64(c.Options.Memory.Len()) {
+		return nil, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, size, c.Options.Memory.Len())
+	}
 	buf := c.Options.Memory.Bytes()[ptr : ptr+size]
 	switch t.(type) {
 	case types.U8:
@@ -233,7 +236,8 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", err
 	}
 
-	byteLength := tcu.CodeUnits * uint32(codec.RuneSize())
+	byteLength64 := uint64(tcu.CodeUnits) * uint64(codec.RuneSize())
+	byteLength := uint32(byteLength64)
 	align, err := AlignTo(ptr, uint32(codec.Alignment()))
 
 	if err != nil {
@@ -244,7 +248,7 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		return "", types.TrapWith("error aligning ptr %d to %d", ptr, uint32(codec.Alignment()))
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+byteLength64 > uint64(cx.Options.Memory.Len()) {
 		return "", types.TrapWith("destination %d > memory size %d", ptr+byteLength, cx.Options.Memory.Len())
 	}
 
@@ -283,7 +287,7 @@ func LoadListFromRange(cx *types.CallContext, ptr uint32, length uint32, element
 	if err != nil {
 		return nil, err
 	}
-	if ptr+length*size > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(length)*uint64(size) > uint64(cx.Options.Memory.Len()) {
 		return nil, types.TrapWith("destination size %d is greater than memory size %d", ptr+length*size, cx.Options.Memory.Len())
 	}
 	var list []any
@@ -330,6 +334,9 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		return nil, err
 	}
 	caseIndex, err := LoadInt(cx, ptr, dt)
+	if err != nil {
+		return nil, err
+	}
 	var u32CaseIndex uint32 = 0
 	switch dt.(type) {
 	case types.U8:
@@ -342,9 +349,6 @@ func LoadVariant(cx *types.CallContext, ptr uint32, v types.Variant) (map[string
 		// could cause problems if caseIndex is actually a u64
 		u32CaseIndex = uint32(caseIndex.(uint64))
 	}
-	if err != nil {
-		return nil, err
-	}
 
 	discSize, err := Size(dt)
 	if err != nil {
diff --git a/abi/io/store.go b/abi/io/store.go
index 95f5886..d46549b 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -102,7 +102,7 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 		return err
 	}
 
-	if ptr+size > uint32(c.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(size) > uint64(c.Options.Memory.Len()) {
 		return fmt.Errorf("Store: %d exceeds memory length %d", ptr+size, c.Options.Memory.Len())
 	}
 
@@ -124,6 +124,9 @@ func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error
 }
 
 func StoreUInt32(c *types.CallContext, val uint32, ptr uint32) error {
+	if uint64(ptr)+uint64(SizeOfU32) > uint64(c.Options.Memory.Len()) {
+		return types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, SizeOfU32, c.Options.Memory.Len())
+	}
 	buf := c.Options.Memory.Bytes()[ptr : ptr+SizeOfU32]
 	binary.LittleEndian.PutUint32(buf, val)
 	return nil
@@ -194,6 +197,9 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
+	if uint64(ptr)+uint64(nbytes) > uint64(c.Options.Memory.Len()) {
+		return types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, nbytes, c.Options.Memory.Len())
+	}
 	buf := c.Options.Memory.Bytes()[ptr : ptr+nbytes]
 	switch nbytes {
 	case SizeOfS8:
@@ -293,6 +299,17 @@ func StoreStringDynamic(
 		return 0, 0, err
 	}
 
+	align, err := AlignTo(ptr, dstAlignment)
+	if err != nil {
+		return 0, 0, err
+	}
+	if ptr != align {
+		return 0, 0, types.TrapWith("ptr %d is not aligned to %d", ptr, dstAlignment)
+	}
+	if uint64(ptr)+uint64(lenEncoded) > uint64(cx.Options.Memory.Len()) {
+		return 0, 0, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, lenEncoded, cx.Options.Memory.Len())
+	}
+
 	buf := cx.Options.Memory.Bytes()[ptr : ptr+lenEncoded]
 	copy(buf, encoded)
 
@@ -317,7 +334,7 @@ func StoreStringCopy(cx *types.CallContext, src string, srcCodeUnits uint32, dst
 	if ptr != align {
 		return 0, 0, types.TrapWith("ptr %d is not aligned to destination %d", ptr, dstAlignment)
 	}
-	if ptr+dstByteLength > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(dstByteLength) > uint64(cx.Options.Memory.Len()) {
 		return 0, 0, types.TrapWith("array size %d is greater than the memory size %d", ptr+dstByteLength, cx.Options.Memory.Len())
 	}
 
@@ -353,7 +370,7 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 		return 0, 0, types.TrapWith("ptr %d is not alinged to 2", ptr)
 	}
 
-	if ptr+worstCaseSize > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(worstCaseSize) > uint64(cx.Options.Memory.Len()) {
 		return 0, 0, types.TrapWith("worst case size %d is greater than memory size %d", ptr+worstCaseSize, cx.Options.Memory.Len())
 	}
 
@@ -436,7 +453,7 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, types.TrapWith("ptr %d not aligned to %d", ptr, alignment)
 	}
 
-	if ptr+byteLength > uint32(cx.Options.Memory.Len()) {
+	if uint64(ptr)+uint64(byteLength) > uint64(cx.Options.Memory.Len()) {
 		return 0, 0, types.TrapWith("ptr %d exceeds mememory size %d", ptr+byteLength, cx.Options.Memory.Len())
 	}
 
-- 
2.43.0


From 4b6ca8dbe73416e4775c52cba803c53b3a6de45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:42 +0000
Subject: [PATCH 10/73] fix: report missing core values instead of panicking

---
 abi/values/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abi/values/value.go b/abi/values/value.go
index 3bdcd3c..f996387 100644
--- a/abi/values/value.go
+++ b/abi/values/value.go
@@ -30,7 +30,7 @@ type valueIterator struct {
 }
 
 func (vi *valueIterator) Next(k kind.Kind) (any, error) {
-	if vi.Length() == 0 {
+	if vi.index >= vi.Length() {
 		return nil, fmt.Errorf("eof")
 	}
 
-- 
2.43.0


From 7413d4287da6626de4affa49bcd9d43a62bfb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:43 +0000
Subject: [PATCH 11/73] fix: support flags types with more than 64 labels

---
 abi/io/lift.go  | 13 ++++++-------
 abi/io/load.go  | 29 +++++++++++++++++++++++++++++
 abi/io/lower.go | 18 ++++++------------
 abi/io/store.go | 19 +++++++++++++++++--
 4 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/abi/io/lift.go b/abi/io/lift.go
index cf0142d..45b55ed 100644
--- a/abi/io/lift.go
+++ b/abi/io/lift.go
@@ -330,10 +330,8 @@ func LiftFlatVariant(cx *types.CallContext, vi values.ValueIterator, variant typ
 }
 
 func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
-	var flat uint64 = 0
-	shift := 0
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
+	flags := map[string]any{}
+	for _, labels := range SplitFlags(f.Labels()) {
 		next, err := vi.Next(kind.U32)
 		if err != nil {
 			return nil, err
@@ -342,8 +340,9 @@ func LiftFlatFlags(vi values.ValueIterator, f types.Flags) (any, error) {
 		if !ok {
 			return nil, types.NewCastError(next, "int32")
 		}
-		flat |= (uint64(u32Next) << shift)
-		shift += 32
+		for label, set := range UnpackFlagsFromInt(uint64(u32Next), labels) {
+			flags[label] = set
+		}
 	}
-	return UnpackFlagsFromInt(flat, f.Labels()), nil
+	return flags, nil
 }
diff --git a/abi/io/load.go b/abi/io/load.go
index 222037a..b4f9336 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -417,6 +417,22 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 		return nil, err
 	}
 
+	// more than 64 flags do not fit any integer and are read one word at a time
+	if size > SizeOfU64 {
+		words := map[string]any{}
+		for _, labels := range SplitFlags(flags.Labels()) {
+			word, err := LoadUInt32(cx, ptr)
+			if err != nil {
+				return nil, err
+			}
+			for label, set := range UnpackFlagsFromInt(uint64(word), labels) {
+				words[label] = set
+			}
+			ptr += SizeOfU32
+		}
+		return words, nil
+	}
+
 	i, err := LoadIntWithSize(cx, ptr, size, false)
 	if err != nil {
 		return nil, err
@@ -446,6 +462,19 @@ func LoadFlags(cx *types.CallContext, ptr uint32, flags types.Flags) (map[string
 	return flagMap, nil
 }
 
+// SplitFlags splits the labels into groups that fill one 32 bit word each
+func SplitFlags(labels []string) [][]string {
+	var words [][]string
+	for len(labels) > 32 {
+		words = append(words, labels[:32])
+		labels = labels[32:]
+	}
+	if len(labels) > 0 {
+		words = append(words, labels)
+	}
+	return words
+}
+
 func UnpackFlagsFromInt(i uint64, labels []string) map[string]any {
 	unpacked := map[string]any{}
 	for _, label := range labels {
diff --git a/abi/io/lower.go b/abi/io/lower.go
index d0d93cb..9b09d2c 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -224,19 +224,13 @@ func LowerFlatFlags(cx *types.CallContext, v any, f types.Flags) ([]values.Value
 	if !ok {
 		return nil, types.NewCastError(v, "map[string]any")
 	}
-	packed, err := PackFlagsIntoInt(vMap, f)
-	if err != nil {
-		return nil, err
-	}
 	var flat []values.Value
-	numFlags := NumI32Flags(f.Labels())
-	for i := 0; i < int(numFlags); i++ {
-		u32 := values.U32(packed & 0xffffffff)
-		flat = append(flat, u32)
-		packed >>= 32
-	}
-	if packed != 0 {
-		return nil, fmt.Errorf("invalid flag value")
+	for _, labels := range SplitFlags(f.Labels()) {
+		packed, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+		if err != nil {
+			return nil, err
+		}
+		flat = append(flat, values.U32(packed))
 	}
 	return flat, nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index d46549b..9078b5b 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -543,11 +543,26 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
 	vMap := val.(map[string]any)
-	i, err := PackFlagsIntoInt(vMap, f)
+	size, err := Size(f)
 	if err != nil {
 		return err
 	}
-	size, err := Size(f)
+	// more than 64 flags do not fit any integer and are stored one word at a time
+	if size > SizeOfU64 {
+		for _, labels := range SplitFlags(f.Labels()) {
+			word, err := PackFlagsIntoInt(vMap, types.NewFlags(labels...))
+			if err != nil {
+				return err
+			}
+			err = StoreUInt32(c, uint32(word), ptr)
+			if err != nil {
+				return err
+			}
+			ptr += SizeOfU32
+		}
+		return nil
+	}
+	i, err := PackFlagsIntoInt(vMap, f)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 48f88a780ad1ac1077e790eddc0e5f8e81cd703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:08 +0000
Subject: [PATCH 12/73] fix: treat the whole utf-8 string length as a byte
 count

---
 abi/io/load.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index b4f9336..f3a1c98 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -231,6 +231,11 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 		}
 	}
 
+	// utf-8 lengths carry no tag
+	if srcEncoding == encoding.UTF8 {
+		tcu.CodeUnits = taggedCodeUnits
+	}
+
 	codec, err := encoding.DefaultFactory().Get(srcEncoding)
 	if err != nil {
 		return "", err
-- 
2.43.0


From b96b4825c0b268a4d259dfe25c55e4b8f595bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:09 +0000
Subject: [PATCH 13/73] fix: trap when a lifted string is not well formed

---
 abi/io/load.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/abi/io/load.go b/abi/io/load.go
index f3a1c98..ebf722e 100644
--- a/abi/io/load.go
+++ b/abi/io/load.go
@@ -5,6 +5,8 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-wasm/abi/types"
 	"github.com/patrickhuber/go-wasm/encoding"
@@ -258,9 +260,36 @@ func LoadStringFromRange(cx *types.CallContext, ptr, taggedCodeUnits uint32) (st
 	}
 
 	buf := cx.Options.Memory.Bytes()[ptr : ptr+byteLength]
+	if !isWellFormed(srcEncoding, buf) {
+		return "", types.TrapWith("string at %d is not valid %s", ptr, srcEncoding)
+	}
 	return encoding.DecodeString(codec, bytes.NewReader(buf))
 }
 
+// isWellFormed reports whether the decoder can decode the buffer without replacing characters
+func isWellFormed(enc encoding.Encoding, buf []byte) bool {
+	switch enc {
+	case encoding.UTF8:
+		return utf8.Valid(buf)
+	case encoding.UTF16, encoding.UTF16LE:
+		for ; len(buf) >= 2; buf = buf[2:] {
+			unit := rune(binary.LittleEndian.Uint16(buf))
+			if !utf16.IsSurrogate(unit) {
+				continue
+			}
+			if len(buf) < 4 {
+				return false
+			}
+			next := rune(binary.LittleEndian.Uint16(buf[2:]))
+			if utf16.DecodeRune(unit, next) == utf8.RuneError {
+				return false
+			}
+			buf = buf[2:]
+		}
+	}
+	return true
+}
+
 func LoadList(cx *types.CallContext, ptr uint32, elementType types.ValType) ([]any, error) {
 
 	begin, err := LoadUInt32(cx, ptr)
-- 
2.43.0


From 543c4b52627bb8ecc425cc2f03abdb9ea1587dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:10 +0000
Subject: [PATCH 14/73] fix: refuse to lower strings that are not valid utf-8

---
 abi/io/store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index 9078b5b..fe8e262 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"math"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-wasm/abi/types"
 	"github.com/patrickhuber/go-wasm/encoding"
@@ -234,6 +235,10 @@ func StoreString(c *types.CallContext, str string, ptr uint32) error {
 
 func StoreStringIntoRange(cx *types.CallContext, str string) (uint32, uint32, error) {
 
+	if !utf8.ValidString(str) {
+		return 0, 0, types.TrapWith("string is not valid utf-8")
+	}
+
 	codec, err := encoding.DefaultFactory().Get(cx.Options.StringEncoding)
 	if err != nil {
 		return 0, 0, err
-- 
2.43.0


From 2bbcc0d530fb138ccb5243a9515d8b8cea2107d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:11 +0000
Subject: [PATCH 15/73] fix: report host values of the wrong type instead of
 panicking

---
 abi/io/lower.go | 10 ++++++++--
 abi/io/store.go | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 9b09d2c..0c88360 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -170,13 +170,19 @@ func LowerFloat64(v any) ([]values.Value, error) {
 }
 
 func LowerChar(v any) ([]values.Value, error) {
-	r := v.(rune)
+	r, ok := v.(rune)
+	if !ok {
+		return nil, types.NewCastError(v, "rune")
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
 
 func LowerString(cx *types.CallContext, v any) ([]values.Value, error) {
-	str := v.(string)
+	str, ok := v.(string)
+	if !ok {
+		return nil, types.NewCastError(v, "string")
+	}
 	ptr, packedLength, err := StoreStringIntoRange(cx, str)
 	if err != nil {
 		return nil, err
diff --git a/abi/io/store.go b/abi/io/store.go
index fe8e262..07b18bd 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -112,12 +112,18 @@ func StoreValidate(c *types.CallContext, t types.ValType, ptr uint32) error {
 
 func StoreFloat(c *types.CallContext, val any, ptr uint32, nbytes uint32) error {
 	if nbytes == SizeOfFloat32 {
-		f := val.(float32)
+		f, ok := val.(float32)
+		if !ok {
+			return types.NewCastError(val, "float32")
+		}
 		f = CanonicalizeFloat32(f)
 		i := math.Float32bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
 	} else {
-		f := val.(float64)
+		f, ok := val.(float64)
+		if !ok {
+			return types.NewCastError(val, "float64")
+		}
 		f = CanonicalizeFloat64(f)
 		i := math.Float64bits(f)
 		return StoreInt(c, i, ptr, nbytes, false)
@@ -547,7 +553,10 @@ func StoreVariant(cx *types.CallContext, val any, ptr uint32, v types.Variant) e
 }
 
 func StoreFlags(c *types.CallContext, val any, ptr uint32, f types.Flags) error {
-	vMap := val.(map[string]any)
+	vMap, err := ToMapStringAny(val)
+	if err != nil {
+		return err
+	}
 	size, err := Size(f)
 	if err != nil {
 		return err
-- 
2.43.0


From 92a7ab9a126d27c0c5ed973a84201a3c7ff848c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:12 +0000
Subject: [PATCH 16/73] fix: refuse to lower runes that are not unicode scalar
 values

---
 abi/io/lower.go | 3 +++
 abi/io/store.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/abi/io/lower.go b/abi/io/lower.go
index 0c88360..4ebc9a7 100644
--- a/abi/io/lower.go
+++ b/abi/io/lower.go
@@ -174,6 +174,9 @@ func LowerChar(v any) ([]values.Value, error) {
 	if !ok {
 		return nil, types.NewCastError(v, "rune")
 	}
+	if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+		return nil, err
+	}
 	i := values.U32(r)
 	return slice(i), nil
 }
diff --git a/abi/io/store.go b/abi/io/store.go
index 07b18bd..e52fccc 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -53,6 +53,9 @@ func Store(c *types.CallContext, val any, t types.ValType, ptr uint32) error {
 		if !ok {
 			return types.NewCastError(val, "rune")
 		}
+		if _, err := ConvertU32ToRune(uint32(r)); err != nil {
+			return err
+		}
 		return StoreInt(c, uint32(r), ptr, SizeOfChar, false)
 	case types.String:
 		s, ok := val.(string)
-- 
2.43.0


From a2a2d6328bee9234d8db53dea22cb2119b8355d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:25 +0000
Subject: [PATCH 17/73] fix: refuse to store values that are not integers or do
 not fit

---
 abi/io/store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/abi/io/store.go b/abi/io/store.go
index e52fccc..8cbc76f 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -184,6 +184,8 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		return fmt.Errorf("unable to store int. Use sized variant")
 	case uint:
 		return fmt.Errorf("unable to store uint. Use sized variant")
+	default:
+		return types.NewCastError(val, "integer")
 	}
 
 	if sign != signed {
@@ -207,6 +209,16 @@ func StoreInt(c *types.CallContext, val any, ptr uint32, nbytes uint32, signed b
 		}
 	}
 
+	// the value must also fit the destination
+	if bits := 8 * nbytes; bits < 64 {
+		if !signed && u64>>bits != 0 {
+			return fmt.Errorf("invalid integer %d does not fit %d bytes", val, nbytes)
+		}
+		if s64 := int64(u64); signed && s64>>(bits-1) != 0 && s64>>(bits-1) != -1 {
+			return fmt.Errorf("invalid integer %d does not fit %d bytes", val, nbytes)
+		}
+	}
+
 	if uint64(ptr)+uint64(nbytes) > uint64(c.Options.Memory.Len()) {
 		return types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, nbytes, c.Options.Memory.Len())
 	}
-- 
2.43.0


From d6fc279c6261a9efd858a53047938411276b57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:26 +0000
Subject: [PATCH 18/73] fix: report variant alignment errors to the caller

---
 abi/io/alignment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/alignment.go b/abi/io/alignment.go
index 03b08dc..8d6d89b 100644
--- a/abi/io/alignment.go
+++ b/abi/io/alignment.go
@@ -75,11 +75,11 @@ func AlignmentVariant(v types.Variant) (uint32, error) {
 	}
 	alignment, err := Alignment(dt)
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	maxAlignment, err := MaxCaseAlignment(v.Cases())
 	if err != nil {
-		return 0, nil
+		return 0, err
 	}
 	return max(alignment, maxAlignment), nil
 }
-- 
2.43.0


From 3791eaaf2f2f73fdfe69c1b5f24db283812479e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:01 +0000
Subject: [PATCH 19/73] fix: refuse calls whose values do not match the
 signature in number

---
 abi/io/canon_lower.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abi/io/canon_lower.go b/abi/io/canon_lower.go
index 690cb8b..2b91559 100644
--- a/abi/io/canon_lower.go
+++ b/abi/io/canon_lower.go
@@ -75,6 +75,9 @@ func CanonLower(
 }
 
 func LowerValues(cx *types.CallContext, maxFlat int, vs []any, ts []types.ValType, outParam values.ValueIterator) ([]any, error) {
+	if len(vs) != len(ts) {
+		return nil, types.TrapWith("expected %d values, found %d", len(ts), len(vs))
+	}
 	flatTypes, err := FlattenTypes(ts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 704e5908ccb3221de23d1cb14166b9bbf0d92110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:30 +0000
Subject: [PATCH 20/73] fix: reject LEB128 numbers that do not fit into 32 bits

The decoders kept reading continuation bytes for ever and dropped the bits
beyond the 32nd, so overlong and too large numbers were accepted.
---
 leb128/decode.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/leb128/decode.go b/leb128/decode.go
index 0c08921..626deb5 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -21,6 +21,9 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 			return 0, 0, err
 		}
 		b := buf[0]
+		if err := check(b, shift); err != nil {
+			return 0, 0, err
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -40,6 +43,9 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 		if err != nil {
 			return 0, 0, err
 		}
+		if err := check(b, shift); err != nil {
+			return 0, 0, err
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -56,6 +62,9 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	total := 0
 	for index := 0; index < len(s); index++ {
 		b := s[index]
+		if err := check(b, shift); err != nil {
+			return 0, 0, err
+		}
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
@@ -65,3 +74,11 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 	}
 	return val, total, nil
 }
+
+// check verifies that the byte at the given shift leaves the value within 32 bits
+func check(b byte, shift int) error {
+	if shift == 28 && b > 0b_0000_1111 {
+		return fmt.Errorf("integer representation exceeds 32 bits")
+	}
+	return nil
+}
-- 
2.43.0


From a8ac52ff1dd63fd1fc1559024e1b1595d24af663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:31 +0000
Subject: [PATCH 21/73] fix: report LEB128 slices that end inside a number

DecodeSlice returned the bits collected so far when the slice ended before
the last byte of the number, and zero for an empty slice.
---
 leb128/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 626deb5..4a90a42 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -68,11 +68,11 @@ func DecodeSlice(s []byte) (uint32, int, error) {
 		total++
 		val |= (uint32(b&0b_0111_1111) << shift)
 		if b&0b_1000_0000 == 0 {
-			break
+			return val, total, nil
 		}
 		shift += 7
 	}
-	return val, total, nil
+	return 0, 0, io.ErrUnexpectedEOF
 }
 
 // check verifies that the byte at the given shift leaves the value within 32 bits
-- 
2.43.0


From 850e030fe7d827f3f3299865cfcea7faf792ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:31 +0000
Subject: [PATCH 22/73] fix: follow the io.Reader contract when reading LEB128
 numbers

A reader may return its last byte together with io.EOF or return no byte at
all without an error. Both made DecodeReader fail, and a read error without
data was replaced by a generic message.
---
 leb128/decode.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/leb128/decode.go b/leb128/decode.go
index 4a90a42..1eaff9f 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -13,10 +13,7 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	buf := make([]byte, 1)
 
 	for {
-		n, err := r.Read(buf)
-		if n == 0 {
-			return 0, 0, fmt.Errorf("expected 1 byte read but read 0")
-		}
+		_, err := io.ReadFull(r, buf)
 		if err != nil {
 			return 0, 0, err
 		}
-- 
2.43.0


From 26b81fc5d0064a80080dd95d18e4fe2a1b39181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:32 +0000
Subject: [PATCH 23/73] fix: report binaries that end inside a section header

The end of the input after a section id or inside of the section size was
taken for the end of the module. Read failures that wrap io.EOF were too.
---
 binary/read.go   |  6 ++++--
 leb128/decode.go | 12 ++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 0748f7e..e4fbe18 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -1,7 +1,6 @@
 package binary
 
 import (
-	"errors"
 	"fmt"
 	"io"
 	"slices"
@@ -73,7 +72,7 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				break
 			}
 			return nil, err
@@ -128,6 +127,9 @@ func ReadSectionHeader(reader io.Reader) (SectionID, uint32, error) {
 
 	// read the size
 	size, err := ReadLebU128(reader)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return SectionID(0), 0, err
 	}
diff --git a/leb128/decode.go b/leb128/decode.go
index 1eaff9f..60a2162 100644
--- a/leb128/decode.go
+++ b/leb128/decode.go
@@ -15,7 +15,7 @@ func DecodeReader(r io.Reader) (uint32, int, error) {
 	for {
 		_, err := io.ReadFull(r, buf)
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, truncated(err, total)
 		}
 		b := buf[0]
 		if err := check(b, shift); err != nil {
@@ -38,7 +38,7 @@ func Decode(r *bufio.Reader) (uint32, int, error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
-			return 0, 0, err
+			return 0, 0, truncated(err, total)
 		}
 		if err := check(b, shift); err != nil {
 			return 0, 0, err
@@ -79,3 +79,11 @@ func check(b byte, shift int) error {
 	}
 	return nil
 }
+
+// truncated replaces the end of the input by an unexpected end if it is inside of a number
+func truncated(err error, total int) error {
+	if err == io.EOF && total > 0 {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
-- 
2.43.0


From 85e5602a1c412977b41b87e9092825bb27fe154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:21 +0000
Subject: [PATCH 24/73] fix: read binary sections within their declared size

The size of a section was read but not used, so a section could run over into
the next one or leave bytes that were then taken for another section. Sections
that are skipped no longer allocate their declared size.
---
 binary/read.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index e4fbe18..2757dc6 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -77,40 +77,41 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			return nil, err
 		}
+		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
 		case TypeSectionID:
-			types, err := ReadFuncTypes(size, reader)
+			types, err := ReadFuncTypes(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Types = types
 		case FunctionSectionID:
-			funcs, err := ReadFuncs(size, reader)
+			funcs, err := ReadFuncs(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Funcs = funcs
 		case CodeSectionID:
-			err := UpdateFuncsWithCode(module, size, reader)
+			err := UpdateFuncsWithCode(module, size, section)
 			if err != nil {
 				return nil, err
 			}
 
 		case ExportSectionID:
-			exports, err := ReadExports(size, reader)
+			exports, err := ReadExports(size, section)
 			if err != nil {
 				return nil, err
 			}
 			module.Exports = exports
 		default:
 			// skip unknown sections
-			data := make([]byte, size)
-			if size > 0 {
-				if _, err := io.ReadFull(reader, data); err != nil {
-					return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
-				}
+			if _, err := io.Copy(io.Discard, section); err != nil {
+				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
 			}
 		}
+		if section.N != 0 {
+			return nil, fmt.Errorf("section %d has %d bytes more than its content", sectionID, section.N)
+		}
 	}
 	return module, nil
 }
-- 
2.43.0


From e21344a3c4655fd903f27c90cb7beb640765e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:21 +0000
Subject: [PATCH 25/73] fix: read function bodies within their declared size

The declared size of a function body was ignored.
---
 binary/read.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index 2757dc6..51a2d95 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -350,21 +350,25 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		}
 
 		// function size
-		_, err := ReadLebU128(reader)
+		codeSize, err := ReadLebU128(reader)
 		if err != nil {
 			return err
 		}
+		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(reader)
+		locals, err := ReadValueTypeVector(code)
 		if err != nil {
 			return err
 		}
 		fn.Locals = locals
-		body, err := ReadExpression(reader)
+		body, err := ReadExpression(code)
 		if err != nil {
 			return err
 		}
+		if code.N != 0 {
+			return fmt.Errorf("function %d has %d bytes after its end", index, code.N)
+		}
 		fn.Body = body
 	}
 	return nil
-- 
2.43.0


From 69b637f54f5feb7a063f4c377af36cca6327ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:22 +0000
Subject: [PATCH 26/73] fix: reject binaries that declare functions without
 code

Only a code section with too many entries was detected. Functions without an
entry were returned without a body.
---
 binary/read.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 51a2d95..73574c0 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -113,6 +113,11 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			return nil, fmt.Errorf("section %d has %d bytes more than its content", sectionID, section.N)
 		}
 	}
+	for index, fn := range module.Funcs {
+		if fn.Body == nil {
+			return nil, fmt.Errorf("function section has more functions than code section, index %d, funcs %d", index, len(module.Funcs))
+		}
+	}
 	return module, nil
 }
 
-- 
2.43.0


From 9f7342a1a14c04b39ac4923e5868112d00d866e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:23 +0000
Subject: [PATCH 27/73] fix: decode the locals of a function as groups

Locals are encoded as a vector of (count, type) pairs. They were read as a
vector of types, so every function with locals was rejected or misread.
---
 binary/binary.go |  4 ++++
 binary/read.go   | 28 +++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/binary/binary.go b/binary/binary.go
index 5a2636e..d020f4b 100644
--- a/binary/binary.go
+++ b/binary/binary.go
@@ -5,6 +5,10 @@ var Magic = []byte{0x00, 0x61, 0x73, 0x6d}
 const ModuleVersion uint16 = 0x01
 const ComponentVersion uint16 = 0x0a
 
+// MaxLocals is the number of locals a function may declare, the limit that
+// https://webassembly.github.io/spec/js-api/#limits recommends
+const MaxLocals = 50000
+
 type SectionID uint8
 
 const (
diff --git a/binary/read.go b/binary/read.go
index 73574c0..d99b0dc 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -362,7 +362,7 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 		code := &io.LimitedReader{R: reader, N: int64(codeSize)}
 
 		fn := module.Funcs[index]
-		locals, err := ReadValueTypeVector(code)
+		locals, err := ReadLocals(code)
 		if err != nil {
 			return err
 		}
@@ -379,6 +379,32 @@ func UpdateFuncsWithCode(module *api.Module, size uint32, reader io.Reader) erro
 	return nil
 }
 
+// ReadLocals reads the groups of locals of a function and returns the type of each local
+func ReadLocals(reader io.Reader) ([]api.ValType, error) {
+	groups, err := ReadLebU128(reader)
+	if err != nil {
+		return nil, err
+	}
+	locals := []api.ValType{}
+	for i := uint32(0); i < groups; i++ {
+		count, err := ReadLebU128(reader)
+		if err != nil {
+			return nil, err
+		}
+		vt, err := ReadValueType(reader)
+		if err != nil {
+			return nil, err
+		}
+		if uint64(len(locals))+uint64(count) > MaxLocals {
+			return nil, fmt.Errorf("too many locals, the limit is %d", MaxLocals)
+		}
+		for j := uint32(0); j < count; j++ {
+			locals = append(locals, vt)
+		}
+	}
+	return locals, nil
+}
+
 func ReadInstruction(reader io.Reader) (api.Instruction, error) {
 	opCode, err := ReadOpCode(reader)
 	if err != nil {
-- 
2.43.0


From 9080905249f127cedda7298ee4c7ef9f48c79f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:23 +0000
Subject: [PATCH 28/73] fix: do not allocate what a binary merely declares

Vectors and names were allocated with the declared length before their content
was read, so a few bytes of input could demand gigabytes of memory.
---
 binary/read.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/binary/read.go b/binary/read.go
index d99b0dc..0b4b973 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -147,13 +147,13 @@ func ReadFuncTypes(size uint32, reader io.Reader) ([]*api.FuncType, error) {
 	if err != nil {
 		return nil, err
 	}
-	types := make([]*api.FuncType, count)
+	types := []*api.FuncType{}
 	for i := uint32(0); i < count; i++ {
 		t, err := ReadType(reader)
 		if err != nil {
 			return nil, err
 		}
-		types[i] = t
+		types = append(types, t)
 	}
 	return types, nil
 }
@@ -196,13 +196,13 @@ func ReadValueTypeVector(reader io.Reader) ([]api.ValType, error) {
 	if err != nil {
 		return nil, err
 	}
-	valueTypes := make([]api.ValType, size)
+	valueTypes := []api.ValType{}
 	for i := uint32(0); i < size; i++ {
 		vt, err := ReadValueType(reader)
 		if err != nil {
 			return nil, err
 		}
-		valueTypes[i] = vt
+		valueTypes = append(valueTypes, vt)
 	}
 	return valueTypes, nil
 }
@@ -232,13 +232,13 @@ func ReadFuncs(size uint32, reader io.Reader) ([]*api.Func, error) {
 		return nil, err
 	}
 
-	funcs := make([]*api.Func, count)
+	funcs := []*api.Func{}
 	for i := uint32(0); i < count; i++ {
 		result, err := ReadFunc(reader)
 		if err != nil {
 			return nil, err
 		}
-		funcs[i] = result
+		funcs = append(funcs, result)
 	}
 
 	return funcs, nil
@@ -260,13 +260,13 @@ func ReadExports(size uint32, reader io.Reader) ([]api.Export, error) {
 		return nil, err
 	}
 
-	exports := make([]api.Export, count)
+	exports := []api.Export{}
 	for i := uint32(0); i < count; i++ {
 		export, err := ReadExport(reader)
 		if err != nil {
 			return nil, err
 		}
-		exports[i] = export
+		exports = append(exports, export)
 	}
 
 	return exports, nil
@@ -312,11 +312,13 @@ func ReadString(reader io.Reader) (string, error) {
 		return "", nil
 	}
 
-	buf := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, buf)
+	buf, err := io.ReadAll(io.LimitReader(reader, int64(size)))
 	if err != nil {
 		return "", err
 	}
+	if uint32(len(buf)) < size {
+		return "", io.ErrUnexpectedEOF
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From ab21e4923a53c1afc6357788f91b8b2e7400c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:24 +0000
Subject: [PATCH 29/73] fix: reject repeated and misplaced binary sections

A repeated section silently replaced the earlier one. Sections other than
custom sections occur at most once and in the prescribed order.
---
 binary/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 0b4b973..8ab3dea 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -69,6 +69,7 @@ func ReadPreamble(reader io.Reader) (api.Preamble, error) {
 
 func ReadModule(reader io.Reader) (*api.Module, error) {
 	module := &api.Module{}
+	var last SectionID
 	for {
 		sectionID, size, err := ReadSectionHeader(reader)
 		if err != nil {
@@ -79,6 +80,13 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 		}
 		section := &io.LimitedReader{R: reader, N: int64(size)}
 		switch sectionID {
+		case TypeSectionID, FunctionSectionID, ExportSectionID, CodeSectionID:
+			if sectionID <= last {
+				return nil, fmt.Errorf("unexpected section %d after section %d", sectionID, last)
+			}
+			last = sectionID
+		}
+		switch sectionID {
 		case TypeSectionID:
 			types, err := ReadFuncTypes(size, section)
 			if err != nil {
-- 
2.43.0


From fa935639ef2ace4d91d8dc916d6a961eb9d883e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:25 +0000
Subject: [PATCH 30/73] fix: reject modules with a layer other than zero

The version of a core module is four bytes. The upper half was not checked.
---
 binary/read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 8ab3dea..5be0d3d 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -27,6 +27,9 @@ func Read(reader io.Reader) (*api.Document, error) {
 			return nil, err
 		}
 	case ModuleVersion:
+		if preamble.Layer != 0 {
+			return nil, fmt.Errorf("invalid module layer %d", preamble.Layer)
+		}
 		directive, err = ReadModule(reader)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 4a82a303d9fd8111219aa3394cb7ee81a48b9166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:25 +0000
Subject: [PATCH 31/73] fix: reject malformed names in binaries

Names have to be valid UTF-8, and a custom section starts with a name.
---
 binary/read.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/binary/read.go b/binary/read.go
index 5be0d3d..80bcab3 100644
--- a/binary/read.go
+++ b/binary/read.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"slices"
+	"unicode/utf8"
 
 	"encoding/binary"
 
@@ -115,6 +116,11 @@ func ReadModule(reader io.Reader) (*api.Module, error) {
 			}
 			module.Exports = exports
 		default:
+			if sectionID == CustomSectionID {
+				if _, err := ReadString(section); err != nil {
+					return nil, err
+				}
+			}
 			// skip unknown sections
 			if _, err := io.Copy(io.Discard, section); err != nil {
 				return nil, fmt.Errorf("failed to read section %d: %w", sectionID, err)
@@ -330,6 +336,9 @@ func ReadString(reader io.Reader) (string, error) {
 	if uint32(len(buf)) < size {
 		return "", io.ErrUnexpectedEOF
 	}
+	if !utf8.Valid(buf) {
+		return "", fmt.Errorf("name %q is not valid utf-8", buf)
+	}
 
 	return string(buf), nil
 }
-- 
2.43.0


From 50af6cdf6eef7cb0fb732aef72ad4cdcca7833f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:30 +0000
Subject: [PATCH 32/73] fix: report WAT input that ends inside a token

An unterminated string or block comment was returned as the end of the input,
so everything after its start was silently ignored.
---
 wat/lex/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index a07b1e3..e7015ee 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -121,8 +121,8 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 				}
 			}
 
-			// process any lexemes in an accepted state and emit a token
-			return l.token(token.EndOfStream) // returned if nothing is matched
+			// the input ends inside of a token
+			return result.Error[*token.Token](l.lexerError())
 		}
 
 		var matched []Lexeme
-- 
2.43.0


From 6fc4ec19c2dccbaf9f72093c1c001f3a552a2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:32 +0000
Subject: [PATCH 33/73] fix: accept a WAT line comment at the end of the input

A line comment ends with a new line or with the input.
---
 wat/lex/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index e7015ee..50c6532 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -229,7 +229,8 @@ func whitespace() Rule {
 func lineComment() Rule {
 	start := &Node{}
 	semi := &Node{}
-	semi2 := &Node{}
+	// the end of the input ends the comment as well
+	semi2 := &Node{Final: true}
 	newLine := &Node{
 		Final: true,
 	}
-- 
2.43.0


From fda3f081588567c8ed4e1f9750c3f7a06680fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:33 +0000
Subject: [PATCH 34/73] fix: recognise escapes in WAT strings

An escaped quote ended the string. Unknown escapes and raw control characters,
which the text format does not allow in strings, were accepted.
---
 wat/lex/lexer.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 50c6532..324133e 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -302,6 +302,11 @@ func blockComment() Rule {
 func str() Rule {
 	start := &Node{}
 	doubleQuote := &Node{}
+	escape := &Node{}
+	hex := &Node{}
+	unicode := &Node{}
+	unicodeOpen := &Node{}
+	unicodeDigit := &Node{}
 	end := &Node{Final: true}
 	start.Edges = append(start.Edges, &ByteEdge{
 		Byte: '"',
@@ -310,8 +315,49 @@ func str() Rule {
 	doubleQuote.Edges = append(doubleQuote.Edges, &ByteEdge{
 		Byte: '"',
 		Node: end,
+	}, &ByteEdge{
+		Byte: '\\',
+		Node: escape,
 	}, &FuncEdge{
-		Func: not('"'),
+		Func: isStringChar,
+		Node: doubleQuote,
+	})
+	// '\t' '\n' '\r' '\"' '\'' '\\'
+	for _, ch := range []byte{'t', 'n', 'r', '"', '\'', '\\'} {
+		escape.Edges = append(escape.Edges, &ByteEdge{
+			Byte: ch,
+			Node: doubleQuote,
+		})
+	}
+	// '\u{' hexnum '}'
+	escape.Edges = append(escape.Edges, &ByteEdge{
+		Byte: 'u',
+		Node: unicode,
+	}, &FuncEdge{
+		Func: isHex,
+		Node: hex,
+	})
+	unicode.Edges = append(unicode.Edges, &ByteEdge{
+		Byte: '{',
+		Node: unicodeOpen,
+	})
+	unicodeOpen.Edges = append(unicodeOpen.Edges, &FuncEdge{
+		Func: isHex,
+		Node: unicodeDigit,
+	})
+	unicodeDigit.Edges = append(unicodeDigit.Edges, &FuncEdge{
+		Func: isHex,
+		Node: unicodeDigit,
+	}, &ByteEdge{
+		Byte: '_',
+		Node: unicodeOpen,
+	}, &ByteEdge{
+		Byte: '}',
+		Node: doubleQuote,
+	})
+	// '\' hexdigit hexdigit
+	hex.Edges = append(hex.Edges, &FuncEdge{
+		Func: isHex,
 		Node: doubleQuote,
 	})
 	return &DfaRule{
@@ -682,6 +728,11 @@ func isSpace(ch byte) bool {
 	return true
 }
 
+// isStringChar reports whether the byte may occur in a string as it is
+func isStringChar(ch byte) bool {
+	return ch >= ' ' && ch != 0x7f && ch != '"' && ch != '\\'
+}
+
 func isHex(ch byte) bool {
 	switch {
 	case isDigit(ch):
-- 
2.43.0


From 6f49ee8bf780b225bb495a868978ec5f8ecc9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:35 +0000
Subject: [PATCH 35/73] fix: support nested WAT block comments

The first ;) ended a comment, although comments in the text format nest.
---
 wat/lex/block_comment.go | 67 ++++++++++++++++++++++++++++++++++++++++
 wat/lex/lexer.go         | 39 +----------------------
 wat/lex/registry.go      |  5 +--
 3 files changed, 71 insertions(+), 40 deletions(-)
 create mode 100644 wat/lex/block_comment.go

diff --git a/wat/lex/block_comment.go b/wat/lex/block_comment.go
new file mode 100644
index 0000000..284e5d0
--- /dev/null
+++ b/wat/lex/block_comment.go
@@ -0,0 +1,67 @@
+package lex
+
+import "github.com/patrickhuber/go-wasm/wat/token"
+
+const BlockCommentRuleType RuleType = 4
+
+// BlockCommentRule matches block comments, which can be nested
+type BlockCommentRule struct {
+}
+
+func (r *BlockCommentRule) Type() token.Type {
+	return token.BlockComment
+}
+
+func (r *BlockCommentRule) Check(ch byte) bool {
+	return ch == '('
+}
+
+func (r *BlockCommentRule) RuleType() RuleType {
+	return BlockCommentRuleType
+}
+
+type BlockCommentLexeme struct {
+	rule  *BlockCommentRule
+	depth int
+	last  byte
+	done  bool
+}
+
+func (l *BlockCommentLexeme) Rule() Rule {
+	return l.rule
+}
+
+func (l *BlockCommentLexeme) Eat(ch byte) bool {
+	if l.done {
+		return false
+	}
+	last := l.last
+	l.last = ch
+	switch {
+	case last == '(' && ch == ';':
+		l.depth++
+		// this semicolon can not end the comment it starts
+		l.last = 0
+	case last == ';' && ch == ')':
+		l.depth--
+		l.last = 0
+		l.done = l.depth == 0
+	case l.depth == 0:
+		// the comment has not started yet
+		return last == 0 && ch == '('
+	}
+	return true
+}
+
+func (l *BlockCommentLexeme) Accepted() bool {
+	return l.done
+}
+
+type BlockCommentFactory struct {
+}
+
+func (f *BlockCommentFactory) Lexeme(r Rule) Lexeme {
+	return &BlockCommentLexeme{
+		rule: r.(*BlockCommentRule),
+	}
+}
diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 324133e..6091044 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -259,44 +259,7 @@ func lineComment() Rule {
 }
 
 func blockComment() Rule {
-	start := &Node{}
-	openParen := &Node{}
-	semi := &Node{}
-	semiEnd := &Node{}
-	closeParen := &Node{Final: true}
-
-	start.Edges = append(start.Edges, &ByteEdge{
-		Byte: '(',
-		Node: openParen,
-	})
-	openParen.Edges = append(openParen.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semi,
-	})
-	semi.Edges = append(semi.Edges, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(';'),
-		Node: semi,
-	})
-	semiEnd.Edges = append(semiEnd.Edges, &ByteEdge{
-		Byte: ')',
-		Node: closeParen,
-	}, &ByteEdge{
-		Byte: ';',
-		Node: semiEnd,
-	}, &FuncEdge{
-		Func: not(')', ';'),
-		Node: semi,
-	})
-
-	return &DfaRule{
-		Dfa: &Dfa{
-			Start: start,
-		},
-		TokenType: token.BlockComment,
-	}
+	return &BlockCommentRule{}
 }
 
 func str() Rule {
diff --git a/wat/lex/registry.go b/wat/lex/registry.go
index 6ff39d6..4c8631d 100644
--- a/wat/lex/registry.go
+++ b/wat/lex/registry.go
@@ -4,6 +4,7 @@ type Registry map[RuleType]Factory
 
 // registry is used for processing incoming runes after a rule matches
 var registry = Registry{
-	StringRuleType: &StringFactory{},
-	DfaRuleType:    &DfaFactory{},
+	StringRuleType:       &StringFactory{},
+	DfaRuleType:          &DfaFactory{},
+	BlockCommentRuleType: &BlockCommentFactory{},
 }
-- 
2.43.0


From 99c3fc09f5089d683365dc1e25c7878609addaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:36 +0000
Subject: [PATCH 36/73] fix: return WAT lexer errors from Peek

Peek panicked on input that can not be tokenised. The lexer also stayed in the
middle of the broken token after an error, so peeking at an error and then
reading it returned a wrong token.
---
 wat/lex/lexer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 6091044..42d5a80 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -723,5 +727,8 @@ func not(chars ...byte) func(ch byte) bool {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d, '%s'", l.line, l.column, l.position, string(l.input[l.offset:l.position]))
+	// stay at the start of the token so that the error is reported again
+	l.position = l.offset
+	return err
 }
-- 
2.43.0


From 2319ea019e4274e1307825b3153b6edf140edd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:04 +0000
Subject: [PATCH 37/73] fix: classify WAT numbers as the text format defines
 them

Decimal floats such as 1.5 or 1e3 were not recognised at all, floats with an
unsigned exponent neither. Numbers with misplaced underscores or with trailing
characters after a hexadecimal float were accepted.
---
 wat/lex/lexer.go | 201 +++++++++--------------------------------------
 1 file changed, 36 insertions(+), 165 deletions(-)

diff --git a/wat/lex/lexer.go b/wat/lex/lexer.go
index 42d5a80..57495cd 100644
--- a/wat/lex/lexer.go
+++ b/wat/lex/lexer.go
@@ -362,192 +362,63 @@ func sign(s string, i int) (int, bool) {
 	return i, false
 }
 
-func num(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
-		return i, false
-	}
-
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isDigit(s[i]) {
-			continue
+// digits reads a sequence of digits, single underscores can separate them
+func digits(s string, i int, digit func(byte) bool) (int, bool) {
+	start := i
+	for i < len(s) {
+		underscore := s[i] == '_' && i > start && i+1 < len(s) && digit(s[i+1])
+		if !digit(s[i]) && !underscore {
+			break
 		}
-		return i, false
+		i++
 	}
-	return i, true
+	return i, i > start
 }
 
-func hexnum(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isHex(s[i]) {
-			continue
-		}
-		return i, true
-	}
-	return i, true
+func num(s string, i int) (int, bool) {
+	return digits(s, i, isDigit)
 }
 
-func frac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isDigit(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isDigit(s[i]) {
-			continue
-		}
-		return i, false
-	}
-	return i, true
+func hexnum(s string, i int) (int, bool) {
+	return digits(s, i, isHex)
 }
 
-func hexfrac(s string, i int) (int, bool) {
-	if i >= len(s) {
-		return i, false
-	}
-	if !isHex(s[i]) {
-		return i, false
-	}
-	for ; i < len(s); i++ {
-		if s[i] == '_' {
-			continue
-		}
-		if isHex(s[i]) {
-			continue
-		}
+// exponent reads the exponent following the lower or upper case marker if there is one
+func exponent(s string, i int, lower byte, upper byte) (int, bool) {
+	if i >= len(s) || (s[i] != lower && s[i] != upper) {
 		return i, true
 	}
-	return i, true
+	i, _ = sign(s, i+1)
+	return num(s, i)
 }
 
 func float(s string, i int) (int, bool) {
-	n, ok := num(s, i)
+	i, ok := num(s, i)
 	if !ok {
 		return i, false
 	}
-	if n == len(s) {
-		return n, ok
+	// p:num '.' q:frac?
+	if i < len(s) && s[i] == '.' {
+		i, _ = num(s, i+1)
 	}
-	i = n
-	// p:num '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:num '.'?('E'|'e')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'E' || s[i+1] == 'e')) ||
-		(s[i] == 'e' || s[i] == 'E') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'E' | 'e'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	// p:num '.' q:frac
-	n, ok = frac(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('E'|'e')('+'|'-')e:num
-	if s[i] != 'e' && s[i] != 'E' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	return num(s, i)
+	// ('E'|'e')('+'|'-')?e:num
+	return exponent(s, i, 'e', 'E')
 }
 
 func hexfloat(s string, i int) (int, bool) {
-	if !strings.HasPrefix(s, "0x") {
+	if !strings.HasPrefix(s[i:], "0x") {
 		return i, false
 	}
-	i += 2
-	n, ok := hexnum(s, i)
+	i, ok := hexnum(s, i+2)
 	if !ok {
 		return i, false
 	}
-	if n == len(s) {
-		return n, ok
+	// p:hexnum '.' q:hexfrac?
+	if i < len(s) && s[i] == '.' {
+		i, _ = hexnum(s, i+1)
 	}
-	i = n
-	// p:hexnum '.'?
-	if s[i] == '.' && i == len(s)-1 {
-		return i + 1, true
-	}
-	// p:hexnum '.'?('P'|'p')('+'|'-')e:num
-	if (s[i] == '.' && (s[i+1] == 'P' || s[i+1] == 'p')) ||
-		(s[i] == 'p' || s[i] == 'P') {
-		if s[i] == '.' {
-			i++ // '.'
-		}
-		i++ // 'P' | 'p'
-		n, ok = sign(s, i)
-		if !ok {
-			return i, false
-		}
-		i = n
-		n, ok = num(s, i)
-		if !ok {
-			return i, false
-		}
-		return n, true
-	}
-	i++ // '.'
-	// p:hexnum '.' q:hexfrac
-	n, ok = hexfrac(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	if i == len(s) {
-		return i, true
-	}
-	// p:num '.' q:frac ('P'|'p')('+'|'-')e:num
-	if s[i] != 'p' && s[i] != 'P' {
-		return i, false
-	}
-	i++
-	n, ok = sign(s, i)
-	if !ok {
-		return i, false
-	}
-	i = n
-	return num(s, i)
+	// ('P'|'p')('+'|'-')?e:num
+	return exponent(s, i, 'p', 'P')
 }
 
 func isFloat(s string) bool {
@@ -572,13 +443,13 @@ func isFloat(s string) bool {
 	}
 	if strings.HasPrefix(s, "nan:0x") {
 		s = strings.TrimPrefix(s, "nan:0x")
-		_, ok := hexnum(s, 0)
-		return ok
+		i, ok := hexnum(s, 0)
+		return ok && i == len(s)
 	}
-	if _, ok := float(s, 0); ok {
+	if i, ok := float(s, 0); ok && i == len(s) {
 		return true
 	}
-	if _, ok := hexfloat(s, 0); ok {
+	if i, ok := hexfloat(s, 0); ok && i == len(s) {
 		return true
 	}
 	return false
@@ -592,7 +463,7 @@ func isInteger(s string) bool {
 	if s[0] == '+' || s[0] == '-' {
 		s = s[1:]
 	}
-	if _, ok := num(s, 0); ok {
+	if i, ok := num(s, 0); ok && i == len(s) {
 		return true
 	}
 	if strings.HasPrefix(s, "0x") {
-- 
2.43.0


From 7eb9a5c3daab5975f3aacfd48f05b1a749fedb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:46 +0000
Subject: [PATCH 38/73] fix: parse integer constants with their full range,
 sign and base

---
 wat/parse/parser.go | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7b8f746..8b6e538 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -778,11 +778,7 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int32]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int32(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInteger(tok.Capture, 32)
 	return result.New(int32(i), err)
 }
 
@@ -797,14 +793,37 @@ func parseInt64(lexer *lex.Lexer) (res types.Result[int64]) {
 	if tok.Type != token.Integer {
 		return result.Errorf[int64]("expected integer %w", parseError(tok))
 	}
-	if strings.HasPrefix(tok.Capture, "-") {
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
-		return result.New(int64(i), err)
-	}
-	i, err := strconv.ParseUint(tok.Capture, 0, 32)
+	i, err := parseInteger(tok.Capture, 64)
 	return result.New(int64(i), err)
 }
 
+// parseInteger parses an integer literal with an optional sign. Unsigned literals up to 2^bits-1
+// are accepted and wrap around, negative literals must fit into a signed integer of the given size.
+func parseInteger(literal string, bits int) (uint64, error) {
+	if strings.HasPrefix(literal, "-") {
+		digits, base := parseDigits(literal[1:])
+		i, err := strconv.ParseInt("-"+digits, base, bits)
+		return uint64(i), err
+	}
+	return parseUnsigned(strings.TrimPrefix(literal, "+"), bits)
+}
+
+// parseUnsigned parses an integer literal without a sign
+func parseUnsigned(literal string, bits int) (uint64, error) {
+	digits, base := parseDigits(literal)
+	return strconv.ParseUint(digits, base, bits)
+}
+
+// parseDigits splits an unsigned integer literal into its digits and base. Literals are decimal
+// unless they start with 0x, digits can be separated by underscores.
+func parseDigits(literal string) (string, int) {
+	literal = strings.ReplaceAll(literal, "_", "")
+	if strings.HasPrefix(literal, "0x") {
+		return literal[2:], 16
+	}
+	return literal, 10
+}
+
 func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
-- 
2.43.0


From 7637fd217addf6cadc28eca9f43b221acfd5611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:21 +0000
Subject: [PATCH 39/73] fix: parse WAT indices and limits as unsigned 32 bit
 integers

---
 wat/parse/parser.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 8b6e538..d5ee7f9 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -311,15 +311,15 @@ func parseMemory(lexer *lex.Lexer) (res types.Result[ast.Memory]) {
 
 func parseLimits(lexer *lex.Lexer) (res types.Result[ast.Limits]) {
 	defer handle.Error(&res)
-	min := parseInt32(lexer).Unwrap()
+	min := parseUint32(lexer).Unwrap()
 	max := option.None[uint32]()
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Integer {
-		n := parseInt32(lexer).Unwrap()
-		max = option.Some(uint32(n))
+		n := parseUint32(lexer).Unwrap()
+		max = option.Some(n)
 	}
 	return result.Ok(ast.Limits{
-		Min: uint32(min),
+		Min: min,
 		Max: max,
 	})
 }
@@ -544,7 +544,7 @@ func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
 	var index ast.Index
 	switch tok.Type {
 	case token.Integer:
-		i := result.New(strconv.Atoi(tok.Capture)).Unwrap()
+		i := result.New(parseUnsigned(tok.Capture, 32)).Unwrap()
 		index = &ast.RawIndex{
 			Index: uint32(i),
 		}
@@ -782,6 +782,17 @@ func parseInt32(lexer *lex.Lexer) (res types.Result[int32]) {
 	return result.New(int32(i), err)
 }
 
+func parseUint32(lexer *lex.Lexer) (res types.Result[uint32]) {
+	defer handle.Error(&res)
+
+	tok := next(lexer).Unwrap()
+	if tok.Type != token.Integer {
+		return result.Errorf[uint32]("expected integer %w", parseError(tok))
+	}
+	i, err := parseUnsigned(tok.Capture, 32)
+	return result.New(uint32(i), err)
+}
+
 func ParseInt64(lexer *lex.Lexer) (int64, error) {
 	return parseInt64(lexer).Deconstruct()
 }
-- 
2.43.0


From 418ac4c4ccab61a9e8106c549d7f442f5228974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:22 +0000
Subject: [PATCH 40/73] fix: parse float constants exactly as the text format
 defines them

---
 wast/parse/parser.go |  34 +------------
 wat/parse/parser.go  | 112 ++++++++++++++++++++-----------------------
 2 files changed, 55 insertions(+), 91 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 401936e..ea40b1f 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -291,26 +291,12 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		// some times constants can be ambiguous like '0'
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		c = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else if peekInteger(lexer).Unwrap() {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		c = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	case "ref.null":
 	case "ref.extern":
@@ -342,14 +328,6 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 	return result.Ok(results)
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	tok, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(tok.Type == token.Float)
-}
-
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	return result.New(watparse.ParseFloat32(lexer))
 }
@@ -441,14 +419,6 @@ func parseString(lexer *lex.Lexer) types.Result[string] {
 	return result.New(str, err)
 }
 
-func peekInteger(lexer *lex.Lexer) types.Result[bool] {
-	i, err := watparse.Peek(lexer)
-	if err != nil {
-		return result.New(false, err)
-	}
-	return result.Ok(i.Type == token.Integer)
-}
-
 func parseInt32(lexer *lex.Lexer) types.Result[int32] {
 	i, err := watparse.ParseInt32(lexer)
 	return result.New(i, err)
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index d5ee7f9..a378dba 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -428,25 +428,12 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Value: parseInt64(lexer).Unwrap(),
 		}
 	case "f32.const":
-		var f32 float32
-		if peekFloat(lexer).Unwrap() {
-			f32 = parseFloat32(lexer).Unwrap()
-		} else {
-			f32 = float32(parseInt32(lexer).Unwrap())
-		}
 		inst = ast.F32Const{
-			Value: f32,
+			Value: parseFloat32(lexer).Unwrap(),
 		}
 	case "f64.const":
-		// some times constants can be ambiguous like '0'
-		var f64 float64
-		if peekFloat(lexer).Unwrap() {
-			f64 = parseFloat64(lexer).Unwrap()
-		} else {
-			f64 = float64(parseInt64(lexer).Unwrap())
-		}
 		inst = ast.F64Const{
-			Value: f64,
+			Value: parseFloat64(lexer).Unwrap(),
 		}
 	// f32 math instructions
 	case "f32.add":
@@ -835,12 +822,6 @@ func parseDigits(literal string) (string, int) {
 	return literal, 10
 }
 
-func peekFloat(lexer *lex.Lexer) (res types.Result[bool]) {
-	defer handle.Error(&res)
-	tok := peek(lexer).Unwrap()
-	return result.Ok(tok.Type == token.Float)
-}
-
 func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 	return parseFloat32(lexer).Deconstruct()
 }
@@ -848,54 +829,58 @@ func ParseFloat32(lexer *lex.Lexer) (float32, error) {
 func parseFloat32(lexer *lex.Lexer) (res types.Result[float32]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// integers are valid floats
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float32]("expected float %w", parseError(tok))
 	}
-	negative := false
-	capture := tok.Capture
-	if strings.HasPrefix(capture, "-") {
-		negative = true
-		capture = capture[1:]
-	}
-	if strings.HasPrefix(capture, "nan") {
-		capture = capture[3:]
-
-		var u32 uint64
-		if strings.HasPrefix(capture, ":") {
-			capture = capture[1:]
-
-			var err error
-			if len(capture) > 0 {
-				if strings.HasPrefix(capture, "canonical") {
-					// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				if strings.HasPrefix(capture, "arithmetic") {
-					// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
-					var val uint32 = 0b_1111_1111_1100_0000_0000_0000_0000_0000
-					return result.Ok(math.Float32frombits(val))
-				}
-				u32, err = strconv.ParseUint(capture, 0, 32)
-				if err != nil {
-					return result.Error[float32](err)
-				}
-			}
-		}
+	if payload, negative, ok := parseNaN(tok.Capture); ok {
 		// create float from data
 		// s111 1111 1xxx xxxx xxxx xxxx xxxx xxxx
+		bits := result.New(parseNaNPayload(payload, 23)).Unwrap()
 		if negative {
-			u32 |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
+			bits |= 0b_1111_1111_1000_0000_0000_0000_0000_0000
 		} else {
-			u32 |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
+			bits |= 0b_0111_1111_1000_0000_0000_0000_0000_0000
 		}
-		return result.Ok(math.Float32frombits(uint32(u32)))
+		return result.Ok(math.Float32frombits(uint32(bits)))
 	}
 	// not nan, so parse normally
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	f, err := strconv.ParseFloat(normalizeFloat(tok.Capture), 32)
 	return result.New(float32(f), err)
 }
 
+// parseNaN returns what follows nan in a nan literal
+func parseNaN(literal string) (payload string, negative bool, ok bool) {
+	negative = strings.HasPrefix(literal, "-")
+	payload, ok = strings.CutPrefix(strings.TrimLeft(literal, "+-"), "nan")
+	return payload, negative, ok
+}
+
+// parseNaNPayload returns the significand of a nan in a format with the given number of significand bits
+func parseNaNPayload(payload string, bits int) (uint64, error) {
+	switch payload {
+	// https://en.wikipedia.org/wiki/NaN#Canonical_NaN
+	// https://webassembly.github.io/spec/core/syntax/values.html#floating-point
+	case "", ":canonical", ":arithmetic":
+		return 1 << (bits - 1), nil
+	}
+	n, err := parseUnsigned(strings.TrimPrefix(payload, ":"), bits)
+	if err == nil && n == 0 {
+		err = fmt.Errorf("nan payload must not be zero")
+	}
+	return n, err
+}
+
+// normalizeFloat turns a float literal into the format strconv understands
+func normalizeFloat(literal string) string {
+	literal = strings.ReplaceAll(literal, "_", "")
+	// the exponent of hexadecimal literals is optional
+	if strings.Contains(literal, "0x") && !strings.ContainsAny(literal, "pP") {
+		literal += "p0"
+	}
+	return literal
+}
+
 func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 	return parseFloat64(lexer).Deconstruct()
 }
@@ -903,10 +888,19 @@ func ParseFloat64(lexer *lex.Lexer) (float64, error) {
 func parseFloat64(lexer *lex.Lexer) (res types.Result[float64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
-	if tok.Type != token.Float {
+	// integers are valid floats
+	if tok.Type != token.Float && tok.Type != token.Integer {
 		return result.Errorf[float64]("expected float %w", parseError(tok))
 	}
-	f, err := strconv.ParseFloat(tok.Capture, 32)
+	if payload, negative, ok := parseNaN(tok.Capture); ok {
+		bits := result.New(parseNaNPayload(payload, 52)).Unwrap()
+		bits |= 0x7ff << 52
+		if negative {
+			bits |= 1 << 63
+		}
+		return result.Ok(math.Float64frombits(bits))
+	}
+	f, err := strconv.ParseFloat(normalizeFloat(tok.Capture), 64)
 	return result.New(f, err)
 }
 
-- 
2.43.0


From 39bd76f6e6bb815158e6b81ccc925e80ca32d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:42 +0000
Subject: [PATCH 41/73] fix: decode escapes in WAT strings

---
 wat/parse/parser.go | 49 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a378dba..a878eef 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/patrickhuber/go-types"
 	"github.com/patrickhuber/go-types/handle"
@@ -751,7 +752,53 @@ func parseString(lexer *lex.Lexer) (res types.Result[string]) {
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
 	}
-	return result.Ok(strings.Trim(tok.Capture, "\""))
+	return result.New(unquote(tok.Capture))
+}
+
+// unquote returns the text a string literal denotes
+func unquote(literal string) (string, error) {
+	literal = literal[1 : len(literal)-1]
+	var builder strings.Builder
+	for len(literal) > 0 {
+		if literal[0] != '\\' {
+			builder.WriteByte(literal[0])
+			literal = literal[1:]
+			continue
+		}
+		n := 2
+		switch literal[1] {
+		case 't':
+			builder.WriteByte('\t')
+		case 'n':
+			builder.WriteByte('\n')
+		case 'r':
+			builder.WriteByte('\r')
+		case '"', '\'', '\\':
+			builder.WriteByte(literal[1])
+		case 'u':
+			// \u{hexnum}
+			n = strings.IndexByte(literal, '}') + 1
+			digits := strings.ReplaceAll(literal[3:n-1], "_", "")
+			r, err := strconv.ParseUint(digits, 16, 32)
+			if err != nil {
+				return "", err
+			}
+			if r > utf8.MaxRune || !utf8.ValidRune(rune(r)) {
+				return "", fmt.Errorf("invalid code point '%s'", literal[:n])
+			}
+			builder.WriteRune(rune(r))
+		default:
+			// \hexdigit hexdigit
+			n = 3
+			b, err := strconv.ParseUint(literal[1:n], 16, 8)
+			if err != nil {
+				return "", err
+			}
+			builder.WriteByte(byte(b))
+		}
+		literal = literal[n:]
+	}
+	return builder.String(), nil
 }
 
 func ParseInt32(lexer *lex.Lexer) (int32, error) {
-- 
2.43.0


From 9f5cb0d0df72cadb83d2b4d11586a2d37933ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:44 +0000
Subject: [PATCH 42/73] fix: return an error when a WAT string is cut off

---
 wast/parse/parser.go | 1 +
 wat/parse/parser.go  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index ea40b1f..35bfccc 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -268,6 +268,7 @@ func parseConsts(lexer *lex.Lexer) (res types.Result[[]ast.Const]) {
 }
 
 func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
+	defer handle.Error(&res)
 	/*
 		const:
 		  ( <num_type>.const <num> )                 ;; number value
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a878eef..4d0142f 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -727,6 +727,7 @@ func parseBlockType(lexer *lex.Lexer) (res types.Result[ast.BlockType]) {
 }
 
 func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]]) {
+	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 	if tok.Type == token.Id {
 		id := parseId(lexer).Unwrap()
@@ -736,6 +737,7 @@ func parseOptionalId(lexer *lex.Lexer) (res types.Result[types.Option[string]])
 }
 
 func parseId(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Id {
 		return result.Errorf[string]("%w", parseError(tok))
@@ -748,6 +750,7 @@ func ParseString(lexer *lex.Lexer) (string, error) {
 }
 
 func parseString(lexer *lex.Lexer) (res types.Result[string]) {
+	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.String {
 		return result.Errorf[string]("%w", parseError(tok))
-- 
2.43.0


From fe19d48ccee7025a14bf03acc3620009e5cf9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:46 +0000
Subject: [PATCH 43/73] fix: represent every recognized i32 instruction in the
 WAT tree

---
 wat/ast/ast.go      | 100 ++++++++++++++++++++++++++++++++++++++++++++
 wat/parse/parser.go |  25 +++++++++++
 2 files changed, 125 insertions(+)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 3da2ded..4a2f1c1 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -223,6 +223,106 @@ type I32DivU struct{}
 
 func (I32DivU) inst() {}
 
+type I32RemS struct{}
+
+func (I32RemS) inst() {}
+
+type I32RemU struct{}
+
+func (I32RemU) inst() {}
+
+type I32And struct{}
+
+func (I32And) inst() {}
+
+type I32Or struct{}
+
+func (I32Or) inst() {}
+
+type I32Xor struct{}
+
+func (I32Xor) inst() {}
+
+type I32Shl struct{}
+
+func (I32Shl) inst() {}
+
+type I32ShrS struct{}
+
+func (I32ShrS) inst() {}
+
+type I32ShrU struct{}
+
+func (I32ShrU) inst() {}
+
+type I32Rotl struct{}
+
+func (I32Rotl) inst() {}
+
+type I32Rotr struct{}
+
+func (I32Rotr) inst() {}
+
+type I32Clz struct{}
+
+func (I32Clz) inst() {}
+
+type I32Ctz struct{}
+
+func (I32Ctz) inst() {}
+
+type I32Popcnt struct{}
+
+func (I32Popcnt) inst() {}
+
+type I32Extend8S struct{}
+
+func (I32Extend8S) inst() {}
+
+type I32Extend16S struct{}
+
+func (I32Extend16S) inst() {}
+
+type I32Eq struct{}
+
+func (I32Eq) inst() {}
+
+type I32Ne struct{}
+
+func (I32Ne) inst() {}
+
+type I32LtS struct{}
+
+func (I32LtS) inst() {}
+
+type I32LtU struct{}
+
+func (I32LtU) inst() {}
+
+type I32LeS struct{}
+
+func (I32LeS) inst() {}
+
+type I32LeU struct{}
+
+func (I32LeU) inst() {}
+
+type I32GtS struct{}
+
+func (I32GtS) inst() {}
+
+type I32GtU struct{}
+
+func (I32GtU) inst() {}
+
+type I32GeS struct{}
+
+func (I32GeS) inst() {}
+
+type I32GeU struct{}
+
+func (I32GeU) inst() {}
+
 type Folded struct {
 	Instruction Instruction
 	Parameters  []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 4d0142f..faa1bba 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -472,32 +472,57 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.div_u":
 		inst = ast.I32DivU{}
 	case "i32.rem_s":
+		inst = ast.I32RemS{}
 	case "i32.rem_u":
+		inst = ast.I32RemU{}
 	case "i32.and":
+		inst = ast.I32And{}
 	case "i32.or":
+		inst = ast.I32Or{}
 	case "i32.xor":
+		inst = ast.I32Xor{}
 	case "i32.shl":
+		inst = ast.I32Shl{}
 	case "i32.shr_s":
+		inst = ast.I32ShrS{}
 	case "i32.shr_u":
+		inst = ast.I32ShrU{}
 	case "i32.rotl":
+		inst = ast.I32Rotl{}
 	case "i32.rotr":
+		inst = ast.I32Rotr{}
 	case "i32.clz":
+		inst = ast.I32Clz{}
 	case "i32.ctz":
+		inst = ast.I32Ctz{}
 	case "i32.popcnt":
+		inst = ast.I32Popcnt{}
 	case "i32.extend8_s":
+		inst = ast.I32Extend8S{}
 	case "i32.extend16_s":
+		inst = ast.I32Extend16S{}
 	case "i32.eqz":
 		inst = ast.I32Eqz{}
 	case "i32.eq":
+		inst = ast.I32Eq{}
 	case "i32.ne":
+		inst = ast.I32Ne{}
 	case "i32.lt_s":
+		inst = ast.I32LtS{}
 	case "i32.lt_u":
+		inst = ast.I32LtU{}
 	case "i32.le_s":
+		inst = ast.I32LeS{}
 	case "i32.le_u":
+		inst = ast.I32LeU{}
 	case "i32.gt_s":
+		inst = ast.I32GtS{}
 	case "i32.gt_u":
+		inst = ast.I32GtU{}
 	case "i32.ge_s":
+		inst = ast.I32GeS{}
 	case "i32.ge_u":
+		inst = ast.I32GeU{}
 	case "block":
 		inst = parseBlock(lexer).Unwrap()
 	case "loop":
-- 
2.43.0


From a0062cf5153fc64f137cfd0a3a6d550c5c9fbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:44 +0000
Subject: [PATCH 44/73] fix: do not fold instructions into the plain
 instruction before them

---
 wat/parse/parser.go | 179 +++++++++++++++++++++++++++++++-------------
 1 file changed, 128 insertions(+), 51 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index faa1bba..533bde4 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -112,19 +112,13 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		case "import":
 			_ = parseImport(lexer).Unwrap()
 		default:
-			inst := parseInstruction(lexer).Unwrap()
+			inst := parseFolded(lexer).Unwrap()
 			function.Instructions = append(function.Instructions, inst)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-	for {
-		tok := peek(lexer).Unwrap()
-		if tok.Type == token.CloseParen {
-			break
-		}
-		instruction := parseInstruction(lexer).Unwrap()
-		function.Instructions = append(function.Instructions, instruction)
-	}
+	instructions := parseInstructions(lexer).Unwrap()
+	function.Instructions = append(function.Instructions, instructions...)
 	return result.Ok(function)
 }
 
@@ -348,15 +342,62 @@ func parseImport(lexer *lex.Lexer) (res types.Result[ast.InlineImport]) {
 func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 	defer handle.Error(&res)
 
+	// folded and plain instructions can be mixed
 	var instructions []ast.Instruction
-	for eat(lexer, token.OpenParen).Unwrap() {
+	for {
+		tok := peek(lexer).Unwrap()
+		if eat(lexer, token.OpenParen).Unwrap() {
+			instruction := parseFolded(lexer).Unwrap()
+			instructions = append(instructions, instruction)
+			expect(lexer, token.CloseParen).Unwrap()
+			continue
+		}
+		// 'else' and 'end' terminate the body of a plain block
+		if tok.Type != token.Reserved || tok.Capture == "else" || tok.Capture == "end" {
+			return result.Ok(instructions)
+		}
 		instruction := parseInstruction(lexer).Unwrap()
 		instructions = append(instructions, instruction)
+	}
+}
+
+// parseFolded parses the content of a folded instruction
+func parseFolded(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+	defer handle.Error(&res)
+
+	var inst ast.Instruction
+	switch peek(lexer).Unwrap().Capture {
+	case "block":
+		next(lexer).Unwrap()
+		inst = parseBlock(lexer).Unwrap()
+		return result.Ok(inst)
+	case "loop":
+		next(lexer).Unwrap()
+		inst = parseLoop(lexer).Unwrap()
+		return result.Ok(inst)
+	case "if":
+		next(lexer).Unwrap()
+		inst = parseIf(lexer).Unwrap()
+		return result.Ok(inst)
+	}
+
+	inst = parseInstruction(lexer).Unwrap()
+	var parameters []ast.Instruction
+	for eat(lexer, token.OpenParen).Unwrap() {
+		parameter := parseFolded(lexer).Unwrap()
+		parameters = append(parameters, parameter)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-	return result.Ok(instructions)
+	if len(parameters) == 0 {
+		return result.Ok(inst)
+	}
+	return result.Ok[ast.Instruction](ast.Folded{
+		Instruction: inst,
+		Parameters:  parameters,
+	})
 }
 
+// parseInstruction parses a plain instruction
 func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
@@ -524,30 +565,41 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.ge_u":
 		inst = ast.I32GeU{}
 	case "block":
-		inst = parseBlock(lexer).Unwrap()
+		block := parseBlock(lexer).Unwrap()
+		parseEnd(lexer, block.Name).Unwrap()
+		inst = block
 	case "loop":
-		inst = parseLoop(lexer).Unwrap()
+		loop := parseLoop(lexer).Unwrap()
+		parseEnd(lexer, loop.Name).Unwrap()
+		inst = loop
 	case "if":
-		inst = parseIf(lexer).Unwrap()
+		inst = parsePlainIf(lexer).Unwrap()
 
 	case "call_indirect":
 		inst = parseCallIndirect(lexer).Unwrap()
 	default:
 		return result.Errorf[ast.Instruction]("%w : error parsing instruction. Unrecognized instruction %v : %s", parseError(tok), tok.Type, tok.Capture)
 	}
-	peekTok := peek(lexer).Unwrap()
-	if peekTok.Type != token.OpenParen {
-		return result.Ok(inst)
-	}
-	folded := ast.Folded{
-		Instruction: inst,
-	}
-	for eat(lexer, token.OpenParen).Unwrap() {
-		inst = parseInstruction(lexer).Unwrap()
-		folded.Parameters = append(folded.Parameters, inst)
-		expect(lexer, token.CloseParen).Unwrap()
+	return result.Ok(inst)
+}
+
+// parseEnd parses the end of a plain block. The label of the block can be repeated.
+func parseEnd(lexer *lex.Lexer, label types.Option[string]) (res types.Result[any]) {
+	defer handle.Error(&res)
+	expectValue(lexer, token.Reserved, "end").Unwrap()
+	return parseRepeatedLabel(lexer, label)
+}
+
+func parseRepeatedLabel(lexer *lex.Lexer, label types.Option[string]) (res types.Result[any]) {
+	defer handle.Error(&res)
+	tok := peek(lexer).Unwrap()
+	if tok.Type == token.Id {
+		if name, ok := label.Deconstruct(); !ok || name != tok.Capture {
+			return result.Errorf[any]("%w : mismatching label '%s'", parseError(tok), tok.Capture)
+		}
+		next(lexer).Unwrap()
 	}
-	return result.Ok[ast.Instruction](folded)
+	return result.Ok[any](nil)
 }
 
 func parseIndex(lexer *lex.Lexer) (res types.Result[ast.Index]) {
@@ -642,36 +694,61 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		name = option.Some(n)
 	}
 
-	var results []ast.Result
-	_else := option.None[ast.Else]()
-	var then ast.Then
+	blockType := parseBlockType(lexer).Unwrap()
+
+	// <folded instruction>* ( then <instruction>* ) ( else <instruction>* )?
 	var instructions []ast.Instruction
-	for eat(lexer, token.OpenParen).Unwrap() {
-		tok = peek(lexer).Unwrap()
-		switch tok.Capture {
-		case "result":
-			res := parseResult(lexer).Unwrap()
-			results = append(results, *res)
-		case "then":
-			then = parseThen(lexer).Unwrap()
-		case "else":
-			e := parseElse(lexer).Unwrap()
-			_else = option.Some(e)
-		default:
-			i := parseInstruction(lexer).Unwrap()
-			instructions = append(instructions, i)
-		}
+	expect(lexer, token.OpenParen).Unwrap()
+	for peek(lexer).Unwrap().Capture != "then" {
+		i := parseFolded(lexer).Unwrap()
+		instructions = append(instructions, i)
+		expect(lexer, token.CloseParen).Unwrap()
+		expect(lexer, token.OpenParen).Unwrap()
+	}
+	then := parseThen(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
+
+	_else := option.None[ast.Else]()
+	if eat(lexer, token.OpenParen).Unwrap() {
+		e := parseElse(lexer).Unwrap()
+		_else = option.Some(e)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
 
 	return result.Ok(ast.If{
-		Name: name,
-		BlockType: ast.BlockType{
-			Results: results,
-		},
-		Clause: instructions,
-		Then:   then,
-		Else:   _else,
+		Name:      name,
+		BlockType: blockType,
+		Clause:    instructions,
+		Then:      then,
+		Else:      _else,
+	})
+}
+
+// parsePlainIf parses an if which is not folded, its condition is the result of the preceding instructions
+func parsePlainIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
+	defer handle.Error(&res)
+
+	name := parseOptionalId(lexer).Unwrap()
+	blockType := parseBlockType(lexer).Unwrap()
+	then := ast.Then{
+		Instructions: parseInstructions(lexer).Unwrap(),
+	}
+
+	_else := option.None[ast.Else]()
+	if tok := peek(lexer).Unwrap(); tok.Type == token.Reserved && tok.Capture == "else" {
+		next(lexer).Unwrap()
+		parseRepeatedLabel(lexer, name).Unwrap()
+		_else = option.Some(ast.Else{
+			Instructions: parseInstructions(lexer).Unwrap(),
+		})
+	}
+	parseEnd(lexer, name).Unwrap()
+
+	return result.Ok(ast.If{
+		Name:      name,
+		BlockType: blockType,
+		Then:      then,
+		Else:      _else,
 	})
 }
 
-- 
2.43.0


From 2fe2321357413befa0c0473b308cf7c693fc847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:27 +0000
Subject: [PATCH 45/73] fix: accept any number of types in a WAT result

---
 wat/parse/parser.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 533bde4..d10bb6e 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -141,12 +141,7 @@ func parseParameter(lexer *lex.Lexer) (res types.Result[*ast.Parameter]) {
 	if id.IsSome() {
 		types = append(types, parseValType(lexer).Unwrap())
 	} else {
-		tok := peek(lexer).Unwrap()
-		for tok.Type == token.Reserved {
-			ty := parseValType(lexer).Unwrap()
-			types = append(types, ty)
-			tok = peek(lexer).Unwrap()
-		}
+		types = parseValTypes(lexer).Unwrap()
 	}
 
 	return result.Ok(&ast.Parameter{
@@ -160,9 +155,9 @@ func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
 
 	expectValue(lexer, token.Reserved, "result").Unwrap()
 
-	ty := parseValType(lexer).Unwrap()
+	types := parseValTypes(lexer).Unwrap()
 	return result.Ok(&ast.Result{
-		Types: []ast.ValType{ty},
+		Types: types,
 	})
 }
 
@@ -644,6 +639,16 @@ func parseValType(lexer *lex.Lexer) (res types.Result[ast.ValType]) {
 	return result.Ok(ty)
 }
 
+func parseValTypes(lexer *lex.Lexer) (res types.Result[[]ast.ValType]) {
+	defer handle.Error(&res)
+	var types []ast.ValType
+	for peek(lexer).Unwrap().Type == token.Reserved {
+		ty := parseValType(lexer).Unwrap()
+		types = append(types, ty)
+	}
+	return result.Ok(types)
+}
+
 func parseBlock(lexer *lex.Lexer) (res types.Result[ast.Block]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
-- 
2.43.0


From 11619691c4125282d342323e534ab42e1da03052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:29 +0000
Subject: [PATCH 46/73] fix: accept several labels in br_table

---
 wat/parse/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index d10bb6e..d5792d5 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -410,10 +410,14 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 			Index: parseIndex(lexer).Unwrap(),
 		}
 	case "br_table":
+		indicies := []ast.Index{
+			parseIndex(lexer).Unwrap(),
+		}
+		for tok := peek(lexer).Unwrap(); tok.Type == token.Integer || tok.Type == token.Id; tok = peek(lexer).Unwrap() {
+			indicies = append(indicies, parseIndex(lexer).Unwrap())
+		}
 		inst = ast.BrTable{
-			Indicies: []ast.Index{
-				parseIndex(lexer).Unwrap(),
-			},
+			Indicies: indicies,
 		}
 	case "return":
 		inst = ast.Return{}
-- 
2.43.0


From e9ad424119fcddeffe39695f5b11acf4a52dabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:31 +0000
Subject: [PATCH 47/73] fix: accept named locals and lists of locals

---
 wat/ast/ast.go      |  1 +
 wat/parse/parser.go | 28 +++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 4a2f1c1..7820177 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -86,6 +86,7 @@ type Parameter struct {
 }
 
 type Local struct {
+	ID   types.Option[string]
 	Type ValType
 }
 
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index d5792d5..7c86f08 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -98,8 +98,8 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 		tok := peek(lexer).Unwrap()
 		switch tok.Capture {
 		case "local":
-			local := parseLocal(lexer).Unwrap()
-			function.Locals = append(function.Locals, local)
+			locals := parseLocals(lexer).Unwrap()
+			function.Locals = append(function.Locals, locals...)
 		case "param":
 			param := parseParameter(lexer).Unwrap()
 			function.Parameters = append(function.Parameters, *param)
@@ -122,13 +122,27 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 	return result.Ok(function)
 }
 
-func parseLocal(lexer *lex.Lexer) (res types.Result[ast.Local]) {
+func parseLocals(lexer *lex.Lexer) (res types.Result[[]ast.Local]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "local").Unwrap()
-	ty := parseValType(lexer).Unwrap()
-	return result.Ok(ast.Local{
-		Type: ty,
-	})
+
+	// a local with an id has exactly one type
+	id := parseOptionalId(lexer).Unwrap()
+	if id.IsSome() {
+		return result.Ok([]ast.Local{{
+			ID:   id,
+			Type: parseValType(lexer).Unwrap(),
+		}})
+	}
+
+	var locals []ast.Local
+	for _, ty := range parseValTypes(lexer).Unwrap() {
+		locals = append(locals, ast.Local{
+			ID:   id,
+			Type: ty,
+		})
+	}
+	return result.Ok(locals)
 }
 
 func parseParameter(lexer *lex.Lexer) (res types.Result[*ast.Parameter]) {
-- 
2.43.0


From cc2c0d2cf7f6b953b83113b54bfaf07b78ac779f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:32 +0000
Subject: [PATCH 48/73] fix: reject WAT function fields that are out of order

---
 wat/parse/parser.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 7c86f08..4d856b3 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -94,8 +94,24 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			function.ID = option.None[string]()
 		}
 	}
-	for eat(lexer, token.OpenParen).Unwrap() {
-		tok := peek(lexer).Unwrap()
+
+	// ( export <string> )* ( import <string> <string> )? <param>* <result>* <local>* <instruction>*
+	fields := []string{"export", "import", "param", "result", "local"}
+	for {
+		// create a clone of the lexer to check for a field, the first instruction ends the fields
+		clone := lexer.Clone()
+		if !eat(clone, token.OpenParen).Unwrap() {
+			break
+		}
+		tok := peek(clone).Unwrap()
+		field := index(fields, tok.Capture)
+		if field < 0 {
+			break
+		}
+		*lexer = *clone
+
+		// the fields before this one must not follow
+		fields = fields[field:]
 		switch tok.Capture {
 		case "local":
 			locals := parseLocals(lexer).Unwrap()
@@ -111,17 +127,23 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			function.Exports = append(function.Exports, export)
 		case "import":
 			_ = parseImport(lexer).Unwrap()
-		default:
-			inst := parseFolded(lexer).Unwrap()
-			function.Instructions = append(function.Instructions, inst)
+			fields = []string{"param", "result"}
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-	instructions := parseInstructions(lexer).Unwrap()
-	function.Instructions = append(function.Instructions, instructions...)
+	function.Instructions = parseInstructions(lexer).Unwrap()
 	return result.Ok(function)
 }
 
+func index(list []string, value string) int {
+	for i, v := range list {
+		if v == value {
+			return i
+		}
+	}
+	return -1
+}
+
 func parseLocals(lexer *lex.Lexer) (res types.Result[[]ast.Local]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "local").Unwrap()
-- 
2.43.0


From 9377c5e67abb28a0459759ad36f4be42bc5a9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:34 +0000
Subject: [PATCH 49/73] fix: keep the inline import of a WAT function

---
 wat/ast/ast.go      | 1 +
 wat/parse/parser.go | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/wat/ast/ast.go b/wat/ast/ast.go
index 7820177..24186e4 100644
--- a/wat/ast/ast.go
+++ b/wat/ast/ast.go
@@ -27,6 +27,7 @@ type Function struct {
 	ID           types.Option[string]
 	Locals       []Local
 	Exports      []InlineExport
+	Imports      []InlineImport
 	Parameters   []Parameter
 	Results      []Result
 	Instructions []Instruction
diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 4d856b3..0e02892 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -126,12 +126,16 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 			export := parseExport(lexer).Unwrap()
 			function.Exports = append(function.Exports, export)
 		case "import":
-			_ = parseImport(lexer).Unwrap()
+			_import := parseImport(lexer).Unwrap()
+			function.Imports = append(function.Imports, _import)
 			fields = []string{"param", "result"}
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-	function.Instructions = parseInstructions(lexer).Unwrap()
+	// an imported function has no body
+	if len(function.Imports) == 0 {
+		function.Instructions = parseInstructions(lexer).Unwrap()
+	}
 	return result.Ok(function)
 }
 
-- 
2.43.0


From 6ed0f7393a76090e47a2ee98624d5fc6f3b300da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:35 +0000
Subject: [PATCH 50/73] fix: reject malformed WAT function types

---
 wat/parse/parser.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 0e02892..a441a19 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -207,11 +207,9 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	id := parseOptionalId(lexer).Unwrap()
 
-	var funcType ast.FuncType
-	if eat(lexer, token.OpenParen).Unwrap() {
-		funcType = parseFuncType(lexer).Unwrap()
-		expect(lexer, token.CloseParen).Unwrap()
-	}
+	expect(lexer, token.OpenParen).Unwrap()
+	funcType := parseFuncType(lexer).Unwrap()
+	expect(lexer, token.CloseParen).Unwrap()
 
 	return result.Ok(ast.Type{
 		ID:       id,
@@ -227,13 +225,16 @@ func parseFuncType(lexer *lex.Lexer) (res types.Result[ast.FuncType]) {
 	var results []ast.Result
 	for eat(lexer, token.OpenParen).Unwrap() {
 		tok := peek(lexer).Unwrap()
-		switch tok.Capture {
-		case "param":
+		switch {
+		// parameters come before results
+		case tok.Capture == "param" && len(results) == 0:
 			parameter := parseParameter(lexer).Unwrap()
 			parameters = append(parameters, *parameter)
-		case "result":
+		case tok.Capture == "result":
 			result := parseResult(lexer).Unwrap()
 			results = append(results, *result)
+		default:
+			return result.Errorf[ast.FuncType]("%w : unexpected '%s' in function type", parseError(tok), tok.Capture)
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
-- 
2.43.0


From e23d3a023eb38a20d9f9946c0a6110b9b1fd1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:37 +0000
Subject: [PATCH 51/73] fix: reject malformed WAT tables and accept lists of
 elements

---
 wat/parse/parser.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index a441a19..0a50c18 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -249,21 +249,18 @@ func parseTable(lexer *lex.Lexer) (res types.Result[ast.Table]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "table").Unwrap()
 	id := parseOptionalId(lexer).Unwrap()
+	// a table has either limits or inline elements
+	hasLimits := peek(lexer).Unwrap().Type == token.Integer
 	tableType := parseTableType(lexer).Unwrap()
 	var elements []ast.Element
-	for eat(lexer, token.OpenParen).Unwrap() {
-		tok := next(lexer).Unwrap()
-		if tok.Type != token.Reserved {
-			return result.Errorf[ast.Table]("%w", parseError(tok))
-		}
-		switch tok.Capture {
-		case "elem":
+	if !hasLimits {
+		expect(lexer, token.OpenParen).Unwrap()
+		expectValue(lexer, token.Reserved, "elem").Unwrap()
+		for peek(lexer).Unwrap().Type == token.Id {
 			id := parseId(lexer).Unwrap()
 			elements = append(elements, ast.Element{
 				ID: id,
 			})
-		default:
-			return result.Errorf[ast.Table]("%w", parseError(tok))
 		}
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -292,6 +289,8 @@ func parseTableType(lexer *lex.Lexer) (res types.Result[ast.TableType]) {
 		refType = ast.ExternRef{}
 	case "funcref":
 		refType = ast.FuncRef{}
+	default:
+		return result.Errorf[ast.TableType]("expected 'externref' or 'funcref': %w", parseError(tok))
 	}
 
 	return result.Ok(ast.TableType{
-- 
2.43.0


From 0ecd4b7d7920a4f4d47e57b9dc35a83732ab415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:38 +0000
Subject: [PATCH 52/73] fix: reject text after the end of a WAT module

---
 wat/decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wat/decoder.go b/wat/decoder.go
index 5a47e43..82daf77 100644
--- a/wat/decoder.go
+++ b/wat/decoder.go
@@ -8,6 +8,7 @@ import (
 	"github.com/patrickhuber/go-wasm/wat/ast"
 	"github.com/patrickhuber/go-wasm/wat/lex"
 	"github.com/patrickhuber/go-wasm/wat/parse"
+	"github.com/patrickhuber/go-wasm/wat/token"
 )
 
 type Decoder interface {
@@ -34,6 +35,13 @@ func (d *decoder) Decode(reader io.Reader) (api.Directive, error) {
 	if err != nil {
 		return nil, err
 	}
+	tok, err := parse.Peek(lexer)
+	if err != nil {
+		return nil, err
+	}
+	if tok.Type != token.EndOfStream {
+		return nil, fmt.Errorf("unexpected '%s' after the end of the module", tok.Capture)
+	}
 	return d.directive(directive)
 }
 
-- 
2.43.0


From 49b14707dd8687137a7c6ca9662358404b288f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:54 +0000
Subject: [PATCH 53/73] fix: reject unknown WAST actions

---
 wast/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index 35bfccc..bf99ac6 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -224,6 +224,8 @@ func parseAction(lexer *lex.Lexer) (res types.Result[ast.Action]) {
 		action = parseInvoke(lexer).Unwrap()
 	case "get":
 		action = parseGet(lexer).Unwrap()
+	default:
+		return result.Errorf[ast.Action]("%w : unrecognized action '%s'", parseError(tok), tok.Capture)
 	}
 
 	expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 91f87f8601d51dcf3646a56ac75e5de07052ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:55 +0000
Subject: [PATCH 54/73] fix: report WAST reference constants instead of
 dropping them

---
 wast/parse/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wast/parse/parser.go b/wast/parse/parser.go
index bf99ac6..6f7a2d0 100644
--- a/wast/parse/parser.go
+++ b/wast/parse/parser.go
@@ -301,8 +301,8 @@ func parseConst(lexer *lex.Lexer) (res types.Result[ast.Const]) {
 		c = ast.F64Const{
 			Value: parseFloat64(lexer).Unwrap(),
 		}
-	case "ref.null":
-	case "ref.extern":
+	case "ref.null", "ref.extern":
+		return result.Errorf[ast.Const]("%w : '%s' not implemented", parseError(tok), tok.Capture)
 	default:
 		return result.Error[ast.Const](parseError(tok))
 	}
@@ -322,7 +322,7 @@ func parseResults(lexer *lex.Lexer) (res types.Result[[]ast.Result]) {
 		c := parseConst(lexer).Unwrap()
 		r, ok := c.(ast.Result)
 		if !ok {
-			continue
+			return result.Errorf[[]ast.Result]("%T is not a result", c)
 		}
 		results = append(results, r)
 		expect(lexer, token.CloseParen).Unwrap()
-- 
2.43.0


From 0ab6b2a580acff4b6df40f03f6ccc376d4d185a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:25 +0000
Subject: [PATCH 55/73] fix: return WIT lexer errors from Peek

Peek panicked on input that can not be tokenised. The lexer also stayed in the
middle of the broken token after an error, so the end of the input was reported
with the rest of the broken token and peeking at an error hid it.
---
 wit/lex/lexer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 611ea99..92c19ab 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -71,7 +71,11 @@ func (l *Lexer) Peek() (*token.Token, error) {
 		return l.peekToken, nil
 	}
 
-	l.peekToken = l.next().Unwrap()
+	tok, err := l.next().Deconstruct()
+	if err != nil {
+		return nil, err
+	}
+	l.peekToken = tok
 	return l.peekToken, nil
 }
 
@@ -323,7 +327,10 @@ func (l *Lexer) readRune() (res types.Option[rune]) {
 }
 
 func (l *Lexer) lexerError() error {
-	return fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	err := fmt.Errorf("error parsing at line: %d column: %d position: %d", l.line, l.column, l.position)
+	// stay at the start of the token so that the error is reported again
+	l.position = l.offset
+	return err
 }
 
 func isKeyLikeStart(ch rune) bool {
-- 
2.43.0


From 429f8290e0806066d6b8ffa84867dc606cd0fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:26 +0000
Subject: [PATCH 56/73] fix: require a name after % in WIT

A lone % was accepted as an identifier.
---
 wit/lex/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wit/lex/lexer.go b/wit/lex/lexer.go
index 92c19ab..8ba9e95 100644
--- a/wit/lex/lexer.go
+++ b/wit/lex/lexer.go
@@ -157,9 +157,10 @@ func (l *Lexer) next() (res types.Result[*token.Token]) {
 	case r == '+':
 		return l.token(token.Plus)
 	case r == '%':
-		if l.eatIf(isKeyLikeStart).Unwrap() {
-			for l.eatIf(isKeyLikeContinue).Unwrap() {
-			}
+		if !l.eatIf(isKeyLikeStart).Unwrap() {
+			return result.Errorf[*token.Token]("%w : expected an identifier after '%%'", l.lexerError())
+		}
+		for l.eatIf(isKeyLikeContinue).Unwrap() {
 		}
 		return l.token(token.ExplicitId)
 
-- 
2.43.0


From da1e105bd5347bf6a34786cbbfa3cb30a4e730fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:55 +0000
Subject: [PATCH 57/73] fix: keep the item type of WIT lists and options

The item type was stored in the embedded interface instead of the item type
field.
---
 wit/parse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 4451f84..896aa58 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -563,7 +563,7 @@ func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
@@ -573,7 +573,7 @@ func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
 	ty := parseType(lexer).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
-		Type: ty,
+		ItemType: ty,
 	})
 }
 
-- 
2.43.0


From 33fa09fb926cf32e700722d07468793946c020e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:56 +0000
Subject: [PATCH 58/73] fix: recognise all WIT primitive types

Most integer types, char and bool were parsed as references to a type of that
name. Any other token, such as a punctuation mark or a keyword, was accepted as
the name of a type as well.
---
 wit/parse/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 896aa58..5bb2e51 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -477,8 +477,26 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 
 	var ty ast.Type
 	switch name.Type {
+	case token.U8:
+		ty = &ast.U8{}
+	case token.U16:
+		ty = &ast.U16{}
 	case token.U32:
 		ty = &ast.U32{}
+	case token.U64:
+		ty = &ast.U64{}
+	case token.S8:
+		ty = &ast.S8{}
+	case token.S16:
+		ty = &ast.S16{}
+	case token.S32:
+		ty = &ast.S32{}
+	case token.S64:
+		ty = &ast.S64{}
+	case token.Char:
+		ty = &ast.Char{}
+	case token.Bool:
+		ty = &ast.Bool{}
 	case token.String:
 		ty = &ast.String{}
 	case token.Float32:
@@ -509,8 +527,10 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 			Id: parseId(lexer).Unwrap(),
 		}
 		expect(lexer, token.Greater).Unwrap()
-	default:
+	case token.Id, token.ExplicitId:
 		ty = &ast.Id{Value: name.Capture}
+	default:
+		return result.Errorf[ast.Type]("%w : found value '%s', type '%v' but expected a type", parseError(name), name.Capture, name.Type)
 	}
 
 	return result.Ok(ty)
-- 
2.43.0


From 38aa7fe2f562856e4e5e99e36e6450a21bac4842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:58 +0000
Subject: [PATCH 59/73] fix: reject unknown top level items in WIT

Every token which does not start an item was accepted as an empty item.
---
 wit/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 5bb2e51..0adc4df 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -44,6 +44,8 @@ func parseAst(lexer *lex.Lexer) (res types.Result[*ast.Ast]) {
 			item.World = parseWorld(lexer).Unwrap()
 		case token.Interface:
 			item.Interface = parseInterface(lexer).Unwrap()
+		default:
+			return result.Errorf[*ast.Ast]("%w : found value '%s', type '%v' but expected (use, world, interface)", parseError(tok), tok.Capture, tok.Type)
 		}
 		n.Items = append(n.Items, *item)
 
-- 
2.43.0


From a48eed51371d466ee99340570329b1ab2b1e63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:59 +0000
Subject: [PATCH 60/73] fix: expect a semicolon after a top level use in WIT

The semicolon was taken for another, empty item.
---
 wit/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 0adc4df..251d4f3 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -108,6 +108,8 @@ func parseTopLevelUse(lexer *lex.Lexer) (res types.Result[*ast.TopLevelUse]) {
 	} else {
 		topLevelUse.As = option.None[string]()
 	}
+	// ;
+	expect(lexer, token.Semicolon).Unwrap()
 	return result.Ok(topLevelUse)
 }
 
-- 
2.43.0


From 76287c6872f9bd582e21cd046b05085978135c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:37 +0000
Subject: [PATCH 61/73] fix: parse paths to interfaces of other WIT packages

A path such as foo:bar/baz always failed because the optional version was not
implemented. The local id of such a path was set to a placeholder.
---
 wit/parse/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 251d4f3..6e886cf 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -354,7 +354,6 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 	name := parseId(lexer).Unwrap()
 	version := parseOptionalVersion(lexer).Unwrap()
 	usePath := &ast.UsePath{
-		Id: "string",
 		Package: struct {
 			Id   *ast.PackageDeclaration
 			Name string
@@ -371,7 +370,14 @@ func parsePath(lexer *lex.Lexer, namespace string) (res types.Result[*ast.UsePat
 }
 
 func parseOptionalVersion(lexer *lex.Lexer) (res types.Result[types.Option[ast.Version]]) {
-	return result.Errorf[types.Option[ast.Version]]("not implemented")
+	defer handle.Error(&res)
+
+	// '@' version
+	if !eat(lexer, token.At).Unwrap() {
+		return result.Ok(option.None[ast.Version]())
+	}
+	version := parseVersion(lexer).Unwrap()
+	return result.Ok(option.Some(*version))
 }
 
 func parseFuncItem(lexer *lex.Lexer) (res types.Result[*ast.FuncItem]) {
-- 
2.43.0


From f83f110e100a6b680f29d605d6b20066a5ae6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:39 +0000
Subject: [PATCH 62/73] fix: parse WIT versions as decimal 64 bit numbers

Numbers with a leading zero were read as octal and numbers that do not fit into
32 bits, such as dates with a time, were rejected.
---
 wit/parse/parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 6e886cf..45c31d9 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -91,9 +91,9 @@ func parseVersion(lexer *lex.Lexer) (res types.Result[*ast.Version]) {
 	patch := parseInteger(lexer).Unwrap()
 
 	return result.Ok(&ast.Version{
-		Major: uint64(major),
-		Minor: uint64(minor),
-		Patch: uint64(patch),
+		Major: major,
+		Minor: minor,
+		Patch: patch,
 	})
 }
 
@@ -922,15 +922,15 @@ func parseId(lexer *lex.Lexer) (res types.Result[string]) {
 	}
 }
 
-func parseInteger(lexer *lex.Lexer) (res types.Result[int64]) {
+func parseInteger(lexer *lex.Lexer) (res types.Result[uint64]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	switch tok.Type {
 	case token.Integer:
-		i, err := strconv.ParseInt(tok.Capture, 0, 32)
+		i, err := strconv.ParseUint(tok.Capture, 10, 64)
 		return result.New(i, err)
 	default:
-		return result.Errorf[int64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
+		return result.Errorf[uint64]("%w: found value '%s', type '%v' but expected (integer) ", parseError(tok), tok.Capture, tok.Type)
 	}
 }
 func eat(lexer *lex.Lexer, tokenType token.TokenType) (res types.Result[bool]) {
-- 
2.43.0


From 5e8daf0e86a286b3461702f05d4bba5b69603b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:40 +0000
Subject: [PATCH 63/73] fix: expect a name as WIT package namespace

Any token was accepted in front of the colon.
---
 wit/parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 45c31d9..aa12871 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -59,7 +59,7 @@ func parsePackageDeclaration(lexer *lex.Lexer) (res types.Result[*ast.PackageDec
 
 	// id
 	packageName := &ast.PackageDeclaration{}
-	packageName.Namespace = next(lexer).Unwrap().Capture
+	packageName.Namespace = parseId(lexer).Unwrap()
 
 	// ':'
 	expect(lexer, token.Colon).Unwrap()
-- 
2.43.0


From 544cb9c30ea5e84928aa0fbfe09f04ed416d90e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:42 +0000
Subject: [PATCH 64/73] fix: expect a body or a semicolon after a WIT resource

A resource without either of them was accepted.
---
 wit/parse/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index aa12871..8a9f841 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -215,6 +215,8 @@ func parseResource(lexer *lex.Lexer) (res types.Result[ast.Resource]) {
 			tok = peek(lexer).Unwrap()
 		}
 		expect(lexer, token.CloseBrace).Unwrap()
+	default:
+		return result.Errorf[ast.Resource]("%w. expected '%v' or '%v' but found '%v'", parseError(tok), token.Semicolon, token.OpenBrace, tok.Type)
 	}
 
 	return result.Ok(ast.Resource{
-- 
2.43.0


From e215833a97d0e6cae4d905a5cb39a492a03cc3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:43 +0000
Subject: [PATCH 65/73] fix: accept flags and enums in WIT worlds

All other type definitions were accepted already.
---
 wit/parse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 8a9f841..8bcdc49 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -682,8 +682,12 @@ func parseWorldItem(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 		worldItem = parseTypeDef(lexer).Unwrap()
 	case token.Record:
 		worldItem = parseRecord(lexer).Unwrap()
+	case token.Flags:
+		worldItem = parseFlags(lexer).Unwrap()
 	case token.Variant:
 		worldItem = parseVariant(lexer).Unwrap()
+	case token.Enum:
+		worldItem = parseEnum(lexer).Unwrap()
 	case token.Resource:
 		worldItem = parseResource(lexer).Unwrap()
 	case token.Include:
-- 
2.43.0


From cc348acb7d248c80701acf2f495ae601ee71a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:45 +0000
Subject: [PATCH 66/73] fix: separate the names of a WIT include by commas

Two or more names separated by commas were rejected, names without separator
were accepted.
---
 wit/parse/parser.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 8bcdc49..c00022a 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -732,16 +732,10 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	}
 
 	if eat(lexer, token.With).Unwrap() {
-		expect(lexer, token.OpenBrace).Unwrap()
-		for !eat(lexer, token.CloseBrace).Unwrap() {
-			id := parseId(lexer).Unwrap()
-			expect(lexer, token.As).Unwrap()
-			as := parseId(lexer).Unwrap()
-			include.Names = append(include.Names, ast.IncludeName{
-				Name: id,
-				As:   as,
-			})
-		}
+		include.Names = parseItemList(
+			lexer,
+			token.OpenBrace, token.CloseBrace,
+			parseIncludeName).Unwrap()
 	} else {
 		expect(lexer, token.Semicolon).Unwrap()
 	}
@@ -749,6 +743,17 @@ func parseInclude(lexer *lex.Lexer) (res types.Result[ast.WorldItem]) {
 	return result.Ok[ast.WorldItem](include)
 }
 
+func parseIncludeName(lexer *lex.Lexer) (res types.Result[ast.IncludeName]) {
+	defer handle.Error(&res)
+	id := parseId(lexer).Unwrap()
+	expect(lexer, token.As).Unwrap()
+	as := parseId(lexer).Unwrap()
+	return result.Ok(ast.IncludeName{
+		Name: id,
+		As:   as,
+	})
+}
+
 func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	defer handle.Error(&res)
 
-- 
2.43.0


From 65087e2eec00442e5937e128f36fb901c4a5d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:46 +0000
Subject: [PATCH 67/73] fix: accept imports and exports by package path in WIT

An import such as foo:bar/baz was taken for a function or interface named foo
and rejected.
---
 wit/parse/parser.go | 53 +++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index c00022a..0cc457d 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -763,38 +763,35 @@ func parseExternType(lexer *lex.Lexer) (res types.Result[ast.ExternType]) {
 	// if failed, try to parse using a use path
 	clone := lexer.Clone()
 	id := parseId(clone).Unwrap()
-	if !eat(clone, token.Colon).Unwrap() {
-
-		usePath := parseUsePath(lexer).Unwrap()
-		expect(lexer, token.Semicolon).Unwrap()
+	if eat(clone, token.Colon).Unwrap() {
+		tok := peek(clone).Unwrap()
+		switch tok.Type {
+		case token.Func:
+			*lexer = *clone
+			function := parseFunc(lexer).Unwrap()
+
+			expect(lexer, token.Semicolon).Unwrap()
+			return result.Ok[ast.ExternType](&ast.ExternTypeFunc{
+				ID:   id,
+				Func: function,
+			})
+		case token.Interface:
+			*lexer = *clone
 
-		return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
-			UsePath: usePath,
-		})
+			expect(lexer, token.Interface).Unwrap()
+			return result.Ok[ast.ExternType](&ast.ExternTypeInterface{
+				ID:             id,
+				InterfaceItems: parseInterfaceItems(lexer).Unwrap(),
+			})
+		}
 	}
 
-	tok := peek(clone).Unwrap()
-	switch tok.Type {
-	case token.Func:
-		*lexer = *clone
-		function := parseFunc(lexer).Unwrap()
-
-		expect(lexer, token.Semicolon).Unwrap()
-		return result.Ok[ast.ExternType](&ast.ExternTypeFunc{
-			ID:   id,
-			Func: function,
-		})
-	case token.Interface:
-		*lexer = *clone
-
-		expect(lexer, token.Interface).Unwrap()
-		return result.Ok[ast.ExternType](&ast.ExternTypeInterface{
-			ID:             id,
-			InterfaceItems: parseInterfaceItems(lexer).Unwrap(),
-		})
-	}
+	usePath := parseUsePath(lexer).Unwrap()
+	expect(lexer, token.Semicolon).Unwrap()
 
-	return result.Errorf[ast.ExternType]("unable to parse ExternType %w", parseError(tok))
+	return result.Ok[ast.ExternType](&ast.ExternTypeUsePath{
+		UsePath: usePath,
+	})
 }
 
 // record-item ::= 'record' id '{' record-fields '}'
-- 
2.43.0


From 01717de4d44fd26b34f535f8f2e9e6b036e38bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:14 +0000
Subject: [PATCH 68/73] fix: do not drop an incomplete character at the end of
 encoded text

The encoder kept the bytes of a character that was cut off and never
looked at them again, so the text was shortened without an error.
---
 encoding/codec.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/encoding/codec.go b/encoding/codec.go
index 4ba55af..f4e7c92 100644
--- a/encoding/codec.go
+++ b/encoding/codec.go
@@ -4,6 +4,7 @@ import (
 	"io"
 
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 type Codec interface {
@@ -37,9 +38,13 @@ type codec struct {
 
 func (c *codec) Encode(dst io.Writer, src io.Reader) error {
 	encoder := c.enc.NewEncoder()
-	writer := encoder.Writer(dst)
+	writer := transform.NewWriter(dst, encoder)
 	_, err := io.Copy(writer, src)
-	return err
+	if err != nil {
+		return err
+	}
+	// closing handles text that is cut off inside of a character
+	return writer.Close()
 }
 
 func (c *codec) Decode(dst io.Writer, src io.Reader) error {
-- 
2.43.0


From 276ee49297d76bbe3da990613ad6811badfe2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:15 +0000
Subject: [PATCH 69/73] fix: resolve exports when a module is instantiated

Exports of an instance were never filled in, so looking up an exported
function always failed.
---
 runtime/instance.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/runtime/instance.go b/runtime/instance.go
index d6a88b8..3624838 100644
--- a/runtime/instance.go
+++ b/runtime/instance.go
@@ -1,6 +1,8 @@
 package runtime
 
 import (
+	"fmt"
+
 	"github.com/patrickhuber/go-wasm/address"
 	"github.com/patrickhuber/go-wasm/api"
 )
@@ -21,6 +23,19 @@ func NewModuleInstance(store *Store, module *api.Module) (*ModuleInstance, error
 	moduleInstance := &ModuleInstance{
 		store: store,
 	}
+	for _, export := range module.Exports {
+		description, ok := export.Description.(*api.FuncExportDescription)
+		if !ok {
+			return nil, fmt.Errorf("unsupported export %s", export.Name)
+		}
+		if int(description.FuncIdx) >= len(module.Funcs) {
+			return nil, fmt.Errorf("export %s refers to unknown function %d", export.Name, description.FuncIdx)
+		}
+		moduleInstance.Exports = append(moduleInstance.Exports, ExportInstance{
+			Name:  export.Name,
+			Value: address.Function(len(store.Funcs) + int(description.FuncIdx)),
+		})
+	}
 	for _, fn := range module.Funcs {
 		funcAddr := len(store.Funcs)
 		store.Funcs = append(store.Funcs, fn)
-- 
2.43.0


From 3d67213e63ead0acbd9f17018ec764aa088ddf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:56 +0000
Subject: [PATCH 70/73] fix: refuse lists whose byte length does not fit the
 address space

---
 abi/io/store.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 8cbc76f..710d266 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -455,11 +455,11 @@ func StoreListIntoRange(cx *types.CallContext, v any, elementType types.ValType)
 		return 0, 0, err
 	}
 
-	byteLengthInt := len(slice) * int(size)
-	if byteLengthInt >= math.MaxInt {
-		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLengthInt, math.MaxInt)
+	byteLength64 := uint64(len(slice)) * uint64(size)
+	if byteLength64 > math.MaxUint32 {
+		return 0, 0, types.TrapWith("byte length %d exceeds max of %d", byteLength64, uint32(math.MaxUint32))
 	}
-	byteLength := uint32(byteLengthInt)
+	byteLength := uint32(byteLength64)
 
 	alignment, err := Alignment(elementType)
 	if err != nil {
-- 
2.43.0


From a447aee40765b6f9ee6416c4e2aacd3473ae658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:00 +0000
Subject: [PATCH 71/73] fix: refuse instructions nested too deeply instead of
 exhausting the stack

---
 wat/parse/parser.go | 73 ++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/wat/parse/parser.go b/wat/parse/parser.go
index 0a50c18..eaa69fa 100644
--- a/wat/parse/parser.go
+++ b/wat/parse/parser.go
@@ -134,7 +134,7 @@ func parseFunc(lexer *lex.Lexer) (res types.Result[*ast.Function]) {
 	}
 	// an imported function has no body
 	if len(function.Imports) == 0 {
-		function.Instructions = parseInstructions(lexer).Unwrap()
+		function.Instructions = parseInstructions(lexer, 0).Unwrap()
 	}
 	return result.Ok(function)
 }
@@ -304,7 +304,7 @@ func parseGlobal(lexer *lex.Lexer) (res types.Result[ast.Global]) {
 	expectValue(lexer, token.Reserved, "global").Unwrap()
 	id := parseOptionalId(lexer).Unwrap()
 	globalType := parseGlobalType(lexer).Unwrap()
-	instructions := parseInstructions(lexer).Unwrap()
+	instructions := parseInstructions(lexer, 0).Unwrap()
 	return result.Ok(ast.Global{
 		ID:           id,
 		Type:         globalType,
@@ -374,15 +374,19 @@ func parseImport(lexer *lex.Lexer) (res types.Result[ast.InlineImport]) {
 	})
 }
 
-func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
+// maxDepth is how deep instructions can be nested before the text is refused
+const maxDepth = 50000
+
+func parseInstructions(lexer *lex.Lexer, depth int) (res types.Result[[]ast.Instruction]) {
 	defer handle.Error(&res)
+	checkDepth(lexer, depth).Unwrap()
 
 	// folded and plain instructions can be mixed
 	var instructions []ast.Instruction
 	for {
 		tok := peek(lexer).Unwrap()
 		if eat(lexer, token.OpenParen).Unwrap() {
-			instruction := parseFolded(lexer).Unwrap()
+			instruction := parseFolded(lexer, depth).Unwrap()
 			instructions = append(instructions, instruction)
 			expect(lexer, token.CloseParen).Unwrap()
 			continue
@@ -391,35 +395,36 @@ func parseInstructions(lexer *lex.Lexer) (res types.Result[[]ast.Instruction]) {
 		if tok.Type != token.Reserved || tok.Capture == "else" || tok.Capture == "end" {
 			return result.Ok(instructions)
 		}
-		instruction := parseInstruction(lexer).Unwrap()
+		instruction := parseInstruction(lexer, depth).Unwrap()
 		instructions = append(instructions, instruction)
 	}
 }
 
 // parseFolded parses the content of a folded instruction
-func parseFolded(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+func parseFolded(lexer *lex.Lexer, depth int) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
+	checkDepth(lexer, depth).Unwrap()
 
 	var inst ast.Instruction
 	switch peek(lexer).Unwrap().Capture {
 	case "block":
 		next(lexer).Unwrap()
-		inst = parseBlock(lexer).Unwrap()
+		inst = parseBlock(lexer, depth).Unwrap()
 		return result.Ok(inst)
 	case "loop":
 		next(lexer).Unwrap()
-		inst = parseLoop(lexer).Unwrap()
+		inst = parseLoop(lexer, depth).Unwrap()
 		return result.Ok(inst)
 	case "if":
 		next(lexer).Unwrap()
-		inst = parseIf(lexer).Unwrap()
+		inst = parseIf(lexer, depth).Unwrap()
 		return result.Ok(inst)
 	}
 
-	inst = parseInstruction(lexer).Unwrap()
+	inst = parseInstruction(lexer, depth).Unwrap()
 	var parameters []ast.Instruction
 	for eat(lexer, token.OpenParen).Unwrap() {
-		parameter := parseFolded(lexer).Unwrap()
+		parameter := parseFolded(lexer, depth+1).Unwrap()
 		parameters = append(parameters, parameter)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -432,8 +437,16 @@ func parseFolded(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	})
 }
 
+func checkDepth(lexer *lex.Lexer, depth int) (res types.Result[any]) {
+	defer handle.Error(&res)
+	if depth > maxDepth {
+		return result.Errorf[any]("%w : instructions are nested too deeply", parseError(peek(lexer).Unwrap()))
+	}
+	return result.Ok[any](nil)
+}
+
 // parseInstruction parses a plain instruction
-func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
+func parseInstruction(lexer *lex.Lexer, depth int) (res types.Result[ast.Instruction]) {
 	defer handle.Error(&res)
 	tok := next(lexer).Unwrap()
 	if tok.Type != token.Reserved {
@@ -604,15 +617,15 @@ func parseInstruction(lexer *lex.Lexer) (res types.Result[ast.Instruction]) {
 	case "i32.ge_u":
 		inst = ast.I32GeU{}
 	case "block":
-		block := parseBlock(lexer).Unwrap()
+		block := parseBlock(lexer, depth).Unwrap()
 		parseEnd(lexer, block.Name).Unwrap()
 		inst = block
 	case "loop":
-		loop := parseLoop(lexer).Unwrap()
+		loop := parseLoop(lexer, depth).Unwrap()
 		parseEnd(lexer, loop.Name).Unwrap()
 		inst = loop
 	case "if":
-		inst = parsePlainIf(lexer).Unwrap()
+		inst = parsePlainIf(lexer, depth).Unwrap()
 
 	case "call_indirect":
 		inst = parseCallIndirect(lexer).Unwrap()
@@ -693,7 +706,7 @@ func parseValTypes(lexer *lex.Lexer) (res types.Result[[]ast.ValType]) {
 	return result.Ok(types)
 }
 
-func parseBlock(lexer *lex.Lexer) (res types.Result[ast.Block]) {
+func parseBlock(lexer *lex.Lexer, depth int) (res types.Result[ast.Block]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 
@@ -704,7 +717,7 @@ func parseBlock(lexer *lex.Lexer) (res types.Result[ast.Block]) {
 	}
 
 	blockType := parseBlockType(lexer).Unwrap()
-	instructions := parseInstructions(lexer).Unwrap()
+	instructions := parseInstructions(lexer, depth+1).Unwrap()
 
 	return result.Ok(ast.Block{
 		Name:         name,
@@ -713,7 +726,7 @@ func parseBlock(lexer *lex.Lexer) (res types.Result[ast.Block]) {
 	})
 }
 
-func parseLoop(lexer *lex.Lexer) (res types.Result[ast.Loop]) {
+func parseLoop(lexer *lex.Lexer, depth int) (res types.Result[ast.Loop]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 
@@ -724,7 +737,7 @@ func parseLoop(lexer *lex.Lexer) (res types.Result[ast.Loop]) {
 	}
 
 	blockType := parseBlockType(lexer).Unwrap()
-	instructions := parseInstructions(lexer).Unwrap()
+	instructions := parseInstructions(lexer, depth+1).Unwrap()
 
 	return result.Ok(ast.Loop{
 		Name:         name,
@@ -733,7 +746,7 @@ func parseLoop(lexer *lex.Lexer) (res types.Result[ast.Loop]) {
 	})
 }
 
-func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
+func parseIf(lexer *lex.Lexer, depth int) (res types.Result[ast.If]) {
 	defer handle.Error(&res)
 	tok := peek(lexer).Unwrap()
 
@@ -749,17 +762,17 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 	var instructions []ast.Instruction
 	expect(lexer, token.OpenParen).Unwrap()
 	for peek(lexer).Unwrap().Capture != "then" {
-		i := parseFolded(lexer).Unwrap()
+		i := parseFolded(lexer, depth+1).Unwrap()
 		instructions = append(instructions, i)
 		expect(lexer, token.CloseParen).Unwrap()
 		expect(lexer, token.OpenParen).Unwrap()
 	}
-	then := parseThen(lexer).Unwrap()
+	then := parseThen(lexer, depth).Unwrap()
 	expect(lexer, token.CloseParen).Unwrap()
 
 	_else := option.None[ast.Else]()
 	if eat(lexer, token.OpenParen).Unwrap() {
-		e := parseElse(lexer).Unwrap()
+		e := parseElse(lexer, depth).Unwrap()
 		_else = option.Some(e)
 		expect(lexer, token.CloseParen).Unwrap()
 	}
@@ -774,13 +787,13 @@ func parseIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 }
 
 // parsePlainIf parses an if which is not folded, its condition is the result of the preceding instructions
-func parsePlainIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
+func parsePlainIf(lexer *lex.Lexer, depth int) (res types.Result[ast.If]) {
 	defer handle.Error(&res)
 
 	name := parseOptionalId(lexer).Unwrap()
 	blockType := parseBlockType(lexer).Unwrap()
 	then := ast.Then{
-		Instructions: parseInstructions(lexer).Unwrap(),
+		Instructions: parseInstructions(lexer, depth+1).Unwrap(),
 	}
 
 	_else := option.None[ast.Else]()
@@ -788,7 +801,7 @@ func parsePlainIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 		next(lexer).Unwrap()
 		parseRepeatedLabel(lexer, name).Unwrap()
 		_else = option.Some(ast.Else{
-			Instructions: parseInstructions(lexer).Unwrap(),
+			Instructions: parseInstructions(lexer, depth+1).Unwrap(),
 		})
 	}
 	parseEnd(lexer, name).Unwrap()
@@ -801,19 +814,19 @@ func parsePlainIf(lexer *lex.Lexer) (res types.Result[ast.If]) {
 	})
 }
 
-func parseElse(lexer *lex.Lexer) (res types.Result[ast.Else]) {
+func parseElse(lexer *lex.Lexer, depth int) (res types.Result[ast.Else]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "else").Unwrap()
 	return result.Ok(ast.Else{
-		Instructions: parseInstructions(lexer).Unwrap(),
+		Instructions: parseInstructions(lexer, depth+1).Unwrap(),
 	})
 }
 
-func parseThen(lexer *lex.Lexer) (res types.Result[ast.Then]) {
+func parseThen(lexer *lex.Lexer, depth int) (res types.Result[ast.Then]) {
 	defer handle.Error(&res)
 	expectValue(lexer, token.Reserved, "then").Unwrap()
 	return result.Ok(ast.Then{
-		Instructions: parseInstructions(lexer).Unwrap(),
+		Instructions: parseInstructions(lexer, depth+1).Unwrap(),
 	})
 }
 
-- 
2.43.0


From 110e88b1d2f2e452dda0846092bd806cdd782ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:02 +0000
Subject: [PATCH 72/73] fix: refuse WIT types nested too deeply instead of
 exhausting the stack

---
 wit/parse/parser.go | 59 +++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/wit/parse/parser.go b/wit/parse/parser.go
index 0cc457d..77264e0 100644
--- a/wit/parse/parser.go
+++ b/wit/parse/parser.go
@@ -482,10 +482,20 @@ func parseTypeItem(lexer *lex.Lexer) (res types.Result[*ast.TypeItem]) {
 	})
 }
 
-func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
+// maxDepth is how deep types can be nested before the text is refused
+const maxDepth = 50000
+
+func parseType(lexer *lex.Lexer) types.Result[ast.Type] {
+	return parseTypeAt(lexer, 0)
+}
+
+func parseTypeAt(lexer *lex.Lexer, depth int) (res types.Result[ast.Type]) {
 	defer handle.Error(&res)
 
 	name := next(lexer).Unwrap()
+	if depth > maxDepth {
+		return result.Errorf[ast.Type]("%w : types are nested too deeply", parseError(name))
+	}
 
 	var ty ast.Type
 	switch name.Type {
@@ -516,17 +526,17 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 	case token.Float64:
 		ty = &ast.Float64{}
 	case token.Stream:
-		ty = parseStream(lexer).Unwrap()
+		ty = parseStream(lexer, depth).Unwrap()
 	case token.Future:
-		ty = parseFuture(lexer).Unwrap()
+		ty = parseFuture(lexer, depth).Unwrap()
 	case token.List:
-		ty = parseList(lexer).Unwrap()
+		ty = parseList(lexer, depth).Unwrap()
 	case token.Option:
-		ty = parseOption(lexer).Unwrap()
+		ty = parseOption(lexer, depth).Unwrap()
 	case token.Result:
-		ty = parseResult(lexer).Unwrap()
+		ty = parseResult(lexer, depth).Unwrap()
 	case token.Tuple:
-		ty = parseTuple(lexer).Unwrap()
+		ty = parseTuple(lexer, depth).Unwrap()
 	case token.Own:
 		expect(lexer, token.Less).Unwrap()
 		ty = &ast.Own{
@@ -552,7 +562,7 @@ func parseType(lexer *lex.Lexer) (res types.Result[ast.Type]) {
 // stream<_, Z>
 // stream<T>
 // stream
-func parseStream(lexer *lex.Lexer) (res types.Result[*ast.Stream]) {
+func parseStream(lexer *lex.Lexer, depth int) (res types.Result[*ast.Stream]) {
 	defer handle.Error(&res)
 	stream := &ast.Stream{
 		End:     option.None[ast.Type](),
@@ -561,11 +571,11 @@ func parseStream(lexer *lex.Lexer) (res types.Result[*ast.Stream]) {
 	if eat(lexer, token.Less).Unwrap() {
 		if eat(lexer, token.Underscore).Unwrap() {
 			expect(lexer, token.Comma).Unwrap()
-			stream.End = option.Some(parseType(lexer).Unwrap())
+			stream.End = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 		} else {
-			stream.Element = option.Some(parseType(lexer).Unwrap())
+			stream.Element = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 			if eat(lexer, token.Comma).Unwrap() {
-				stream.End = option.Some(parseType(lexer).Unwrap())
+				stream.End = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 			}
 		}
 		expect(lexer, token.Greater).Unwrap()
@@ -573,7 +583,7 @@ func parseStream(lexer *lex.Lexer) (res types.Result[*ast.Stream]) {
 	return result.Ok(stream)
 }
 
-func parseFuture(lexer *lex.Lexer) (res types.Result[*ast.Future]) {
+func parseFuture(lexer *lex.Lexer, depth int) (res types.Result[*ast.Future]) {
 	defer handle.Error(&res)
 
 	future := &ast.Future{
@@ -581,7 +591,7 @@ func parseFuture(lexer *lex.Lexer) (res types.Result[*ast.Future]) {
 	}
 
 	if eat(lexer, token.Less).Unwrap() {
-		ty := parseType(lexer).Unwrap()
+		ty := parseTypeAt(lexer, depth+1).Unwrap()
 		future.ItemType = option.Some(ty)
 		expect(lexer, token.Greater).Unwrap()
 	}
@@ -589,30 +599,33 @@ func parseFuture(lexer *lex.Lexer) (res types.Result[*ast.Future]) {
 	return result.Ok(future)
 }
 
-func parseList(lexer *lex.Lexer) (res types.Result[*ast.List]) {
+func parseList(lexer *lex.Lexer, depth int) (res types.Result[*ast.List]) {
 	defer handle.Error(&res)
 	expect(lexer, token.Less).Unwrap()
-	ty := parseType(lexer).Unwrap()
+	ty := parseTypeAt(lexer, depth+1).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.List{
 		ItemType: ty,
 	})
 }
 
-func parseOption(lexer *lex.Lexer) (res types.Result[*ast.Option]) {
+func parseOption(lexer *lex.Lexer, depth int) (res types.Result[*ast.Option]) {
 	defer handle.Error(&res)
 	expect(lexer, token.Less).Unwrap()
-	ty := parseType(lexer).Unwrap()
+	ty := parseTypeAt(lexer, depth+1).Unwrap()
 	expect(lexer, token.Greater).Unwrap()
 	return result.Ok(&ast.Option{
 		ItemType: ty,
 	})
 }
 
-func parseTuple(lexer *lex.Lexer) (res types.Result[*ast.Tuple]) {
+func parseTuple(lexer *lex.Lexer, depth int) (res types.Result[*ast.Tuple]) {
 	defer handle.Error(&res)
+	item := func(lexer *lex.Lexer) types.Result[ast.Type] {
+		return parseTypeAt(lexer, depth+1)
+	}
 	tuple := &ast.Tuple{
-		Types: parseItemList[ast.Type](lexer, token.Less, token.Greater, parseType).Unwrap(),
+		Types: parseItemList[ast.Type](lexer, token.Less, token.Greater, item).Unwrap(),
 	}
 	return result.Ok(tuple)
 }
@@ -621,7 +634,7 @@ func parseTuple(lexer *lex.Lexer) (res types.Result[*ast.Tuple]) {
 // result<_, E>
 // result<T>
 // result
-func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
+func parseResult(lexer *lex.Lexer, depth int) (res types.Result[*ast.Result]) {
 	defer handle.Error(&res)
 	r := &ast.Result{
 		Ok:    option.None[ast.Type](),
@@ -630,11 +643,11 @@ func parseResult(lexer *lex.Lexer) (res types.Result[*ast.Result]) {
 	if eat(lexer, token.Less).Unwrap() {
 		if eat(lexer, token.Underscore).Unwrap() {
 			expect(lexer, token.Comma).Unwrap()
-			r.Error = option.Some(parseType(lexer).Unwrap())
+			r.Error = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 		} else {
-			r.Ok = option.Some(parseType(lexer).Unwrap())
+			r.Ok = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 			if eat(lexer, token.Comma).Unwrap() {
-				r.Error = option.Some(parseType(lexer).Unwrap())
+				r.Error = option.Some(parseTypeAt(lexer, depth+1).Unwrap())
 			}
 		}
 		expect(lexer, token.Greater).Unwrap()
-- 
2.43.0


From 17767cf815d5e4aaeb9e6c6592fd5233f5264877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:03 +0000
Subject: [PATCH 73/73] fix: check the address a string was moved to against
 the memory

---
 abi/io/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abi/io/store.go b/abi/io/store.go
index 710d266..99239ca 100644
--- a/abi/io/store.go
+++ b/abi/io/store.go
@@ -423,8 +423,8 @@ func StoreUtf8ToUtf16(cx *types.CallContext, src string, srcCodeUnits uint32) (u
 			return 0, 0, types.TrapWith("ptr %d could not be aligned to 2", ptr)
 		}
 
-		if hiPtr > uint32(cx.Options.Memory.Len()) {
-			return 0, 0, types.TrapWith("ptr %d is greater than memory size %d", hiPtr, cx.Options.Memory.Len())
+		if uint64(ptr)+uint64(len(encoded)) > uint64(cx.Options.Memory.Len()) {
+			return 0, 0, types.TrapWith("ptr %d + size %d is greater than memory size %d", ptr, len(encoded), cx.Options.Memory.Len())
 		}
 	}
 
-- 
2.43.0

