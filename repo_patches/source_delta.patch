From 713d8c3bf20a981cb4bd92c2fdc4a706ef7092e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 01/52] fix: bool accepts only bool, not any type whose payload
 happens to read as 0

---
 src/cxy/lang/frontend/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/types.c b/src/cxy/lang/frontend/types.c
index ee82b27..23b47ad 100644
--- a/src/cxy/lang/frontend/types.c
+++ b/src/cxy/lang/frontend/types.c
@@ -232,7 +232,8 @@ bool isTypeAssignableFrom(const Type *to, const Type *from)
             return isCharacterType(from);
 
         default:
-            return to->primitive.id == from->primitive.id;
+            return typeIs(from, Primitive) &&
+                   to->primitive.id == from->primitive.id;
         }
     case typPointer:
         if (isVoidPointer(to))
-- 
2.43.0


From ffa1ccb810676ddf5880dd2d72218df41b72f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 02/52] fix: removing from a hash table no longer loses entries
 of a chain that wraps around

---
 src/cxy/core/htable.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index 8aa1b66..f2eff9e 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -182,7 +182,13 @@ void removeFromHashTable(HashTable *hashTable, void *elem, size_t elemSize)
         HashCode next_hash = hashTable->hashes[next_index];
         size_t desired_index = modPrime(next_hash, hashTable->capacity);
         // If the next element is part of the collision chain, move it
-        if (desired_index <= index || desired_index > next_index) {
+        // (its desired slot is not in the cyclic range (index, next_index])
+        bool moveable = index <= next_index
+                            ? desired_index <= index ||
+                                  desired_index > next_index
+                            : desired_index <= index &&
+                                  desired_index > next_index;
+        if (moveable) {
             void *next_elem = elemAt(hashTable->elems, elemSize, next_index);
             memcpy(elem, next_elem, elemSize);
             hashTable->hashes[index] = next_hash;
-- 
2.43.0


From 86aaa9fb7805d605d0ee5921141a1135a2159990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 03/52] fix: emit float literals with all their significant
 digits

---
 src/cxy/lang/backend/c/generate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index dca248c..97714ac 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -813,9 +813,10 @@ static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    format(getState(ctx),
-           "{f64}",
-           (FormatArg[]){{.f64 = node->floatLiteral.value}});
+    // enough digits to read back exactly the same double
+    char text[32];
+    snprintf(text, sizeof(text), "%.16e", node->floatLiteral.value);
+    format(getState(ctx), "{s}", (FormatArg[]){{.s = text}});
 }
 
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 749f7a45142e6154aadafe208beee56435ce1352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 04/52] fix: an integer literal above the i64 range is a u64,
 not a negative i8/i64

---
 src/cxy/lang/middle/sema/check.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 4f2fa9e..38a9368 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -747,7 +747,10 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
         break;
     case astIntegerLit:
         node->type =
-            getIntegerTypeForLiteral(ctx->types, integerLiteralValue(node));
+            !node->intLiteral.isNegative && node->intLiteral.uValue > INT64_MAX
+                ? getPrimitiveType(ctx->types, prtU64)
+                : getIntegerTypeForLiteral(ctx->types,
+                                           integerLiteralValue(node));
         break;
     case astFloatLit:
         node->type = getPrimitiveType(ctx->types, prtF64);
-- 
2.43.0


From c24c124eff745e658070091fa54ff0710be9ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 05/52] fix: emit the smallest i64 as a signed constant

---
 src/cxy/lang/backend/c/generate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 97714ac..22dccb6 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -796,7 +796,10 @@ static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->intLiteral.isNegative)
+    if (node->intLiteral.isNegative && node->intLiteral.value == INT64_MIN)
+        // C has no negative literals, 9223372036854775808 is not an i64
+        format(getState(ctx), "(-9223372036854775807 - 1)", NULL);
+    else if (node->intLiteral.isNegative)
         format(getState(ctx),
                "{i64}",
                (FormatArg[]){{.i64 = node->intLiteral.value}});
-- 
2.43.0


From 8b37de125cb49fb8cc1f77529ff206e2fdc305d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 06/52] fix: compile time integer arithmetic sets the sign of
 its result

---
 src/cxy/lang/middle/eval/literal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index eaf4757..37e8bed 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -90,7 +90,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
         }
         else {
             node->tag = astIntegerLit;
-            node->intLiteral.value = (i64)value;
+            node->intLiteral.isNegative = value < 0;
             if (node->intLiteral.isNegative)
                 node->intLiteral.value = (i64)value;
             else
-- 
2.43.0


From 6504f47096f8ce8eecd80cd8c5f99a61606f5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 07/52] fix: size the hash array of a grown hash table by its
 own element type

---
 src/cxy/core/htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/htable.c b/src/cxy/core/htable.c
index f2eff9e..2e3565c 100644
--- a/src/cxy/core/htable.c
+++ b/src/cxy/core/htable.c
@@ -63,7 +63,7 @@ static inline void rehashTable(HashTable *hashTable, size_t elemSize)
     if (new_capacity <= hashTable->capacity)
         new_capacity = hashTable->capacity * 2 + 1;
     void *new_elems = mallocOrDie(new_capacity * elemSize);
-    HashCode *new_hashes = callocOrDie(new_capacity, elemSize);
+    HashCode *new_hashes = callocOrDie(new_capacity, sizeof(HashCode));
     for (size_t i = 0, n = hashTable->capacity; i < n; ++i) {
         HashCode hash = hashTable->hashes[i];
         if (!isOccupiedHash(hash))
-- 
2.43.0


From bd2f8227dad8e8cc9c28ed283debc6acb578aeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 08/52] fix: hashing a string longer than 127 characters uses a
 64 bit index

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index c802de1..81ed56d 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -275,7 +275,7 @@ pub func hash_fnv1a_ptr(h: HashCode, ptr: ^const void) =>
 
 pub func hash_fnv1a_string(h: HashCode, str: string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -285,7 +285,7 @@ pub func hash_fnv1a_string(h: HashCode, str: string)
 
 pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         h = hash_fnv1a_uint8(h, <u8>str.[i]);
         i++
@@ -295,7 +295,7 @@ pub func hash_fnv1a_n_string(h: HashCode, str: string, len: u64)
 
 pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 {
-    var i = 0;
+    var i = 0`u64;
     while (i < len) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
@@ -306,7 +306,7 @@ pub func hash_fnv1a_string_n_igc(h: HashCode, str: ^const char, len: u64)
 
 pub func hash_fnv1a_string_igc(h: HashCode, str: const string)
 {
-    var i = 0;
+    var i = 0`u64;
     while (str.[i] != '\0'`char) {
         var c = toupper(<i32>str.[i]);
         h = hash_fnv1a_uint8(h, <u8>c);
-- 
2.43.0


From dcc6cc434094f5c9ce6812c464aef52256377c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 09/52] fix: hash_fnv1a_bytes hashes every byte and handles an
 empty buffer

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 81ed56d..1ebc3b3 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -321,7 +321,7 @@ pub func hash_fnv1a_bytes(h: HashCode,
                          size: u64)
 {
     const p = ptr !: ^const u8;
-    for (const i: 0..size-1)
+    for (const i: 0..size)
         h = hash_fnv1a_uint8(h, p.[i]);
     return h
 }
-- 
2.43.0


From c0f4f175dbdbdd7747d9eee191ac2acc95998bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:19 +0000
Subject: [PATCH 10/52] fix: hash map removal and iteration index with 64 bits,
 not with an i8

---
 src/cxy/stdlib/hash.cxy | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index f36521f..0384749 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -196,7 +196,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             return
 
         var i = Hasher{}(&key) % _capacity
-        var j = 0
+        var j = 0`u64
         while {
             const h =  _data.[i].hash
             if (h == 0 || j > probe(i, h))
@@ -276,7 +276,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         func `[]=`(key: K, value: V) => insert(&&key, &&value)
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -290,7 +290,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : (K, V)? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -304,7 +304,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(key: K, value: V) -> void) {
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key, _data.[i].value)
@@ -314,7 +314,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(key: &const K, value: &const V) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
@@ -331,7 +331,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -345,7 +345,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         const func `..`() {
-            var i = 0;
+            var i = 0`u64;
             return () : K? => {
                 while (i < _capacity) {
                     if (_data.[i].hash != 0) {
@@ -359,7 +359,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
         }
 
         func each(fun: func(item: K) -> void) {
-            var i = 0;
+            var i = 0`u64;
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     fun(_data.[i].key)
@@ -369,7 +369,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
 
         func map[U](transform: func(item: &const K) -> U) {
             var output = Vector[U]();
-            var i = 0
+            var i = 0`u64
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
-- 
2.43.0


From d36580e16f5cc2b5b76222d2a644d489963b71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:19 +0000
Subject: [PATCH 11/52] fix: HashMap.map and HashSet.map advance through the
 table

---
 src/cxy/stdlib/hash.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index 0384749..fd29989 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -318,6 +318,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key, &_data.[i].value))
+                i++
             }
             return output
         }
@@ -373,6 +374,7 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
             while (i < _capacity) {
                 if (_data.[i].hash != 0)
                     output.push(transform(&_data.[i].key))
+                i++
             }
             return output
         }
-- 
2.43.0


From 5e51896e13c4bf79ddb487682ee84bf00ca5e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 12/52] fix: the probe distance of a hash map entry that
 wrapped around is not a huge number

---
 src/cxy/stdlib/hash.cxy | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cxy/stdlib/hash.cxy b/src/cxy/stdlib/hash.cxy
index fd29989..f03dab6 100644
--- a/src/cxy/stdlib/hash.cxy
+++ b/src/cxy/stdlib/hash.cxy
@@ -50,10 +50,8 @@ pub class HashMap[K, V, Hasher = Hash[K], Cmp = Equals[K]] {
     }
 
     - const func probe(i: u64, h: u64) {
-        var v = i - (h - 1)
-        if (v < 0)
-            v = _capacity + v
-        return v
+        const home = h - 1
+        return i >= home? i - home : _capacity - home + i
     }
 
     @[inline, static]
-- 
2.43.0


From ab2edaf4b457a75b5734475c463e95dc9de71c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 13/52] fix: the lead byte of a 4 byte UTF-8 sequence takes the
 top 3 bits of the code point

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 1ebc3b3..e24c753 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -606,7 +606,7 @@ pub class OutputStream {
             size = 3
         }
         else if (ch < 0x200000) {
-            data.[0] = <char> (0xF0 | (ch >> 16))
+            data.[0] = <char> (0xF0 | (ch >> 18))
             data.[1] = <char> (0x80 | ((ch >> 12) & 0x3f))
             data.[2] = <char> (0x80 | ((ch >> 6) & 0x3f))
             data.[3] = <char> (0x80 | (ch & 0x3f))
-- 
2.43.0


From 4300bbef4c6bb2a271b73f22224bf2a2093f753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 14/52] fix: rIndexOf also looks at index 0

---
 src/cxy/runtime/builtins.cxy | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index e24c753..fa633eb 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -494,11 +494,11 @@ pub struct __string {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (s.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
@@ -877,11 +877,11 @@ pub class String : OutputStream {
         if (_size == 0)
             return None[u64]()
 
-        var i = _size - 1;
+        var i = _size;
         while (i > 0) {
+            i--
             if (_data.[i] == ch)
                 return Some(i)
-            i--
         }
         return None[u64]()
     }
-- 
2.43.0


From 81922be9eec2f015e8fd32477d4c636375015b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 15/52] fix: trimming a String on the left keeps it null
 terminated

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index fa633eb..a45a062 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -842,7 +842,7 @@ pub class String : OutputStream {
             i++
         if (i != 0) {
             var p = ptroff!(this._data + i);
-            memmove(_data, p, _size - i)
+            memmove(_data, p, _size - i + 1)
             _size = _size - i
         }
     }
-- 
2.43.0


From 832980ba236fed8f2a91cb075306033f428b5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 16/52] fix: a buffered stream keeps the order of writes that
 exactly fill its buffer

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index a45a062..d111927 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -1013,7 +1013,7 @@ pub class BufferedOutputStream: OutputStream {
 
     func append(data: ^const void, size: u64): Optional[u64] {
         var room = _capacity - _size
-        if (size > room && _size > 0) {
+        if (size >= room && _size > 0) {
             sync()
             room = _capacity
         }
-- 
2.43.0


From 32bb8940074e6b09b5cbfc0a16f2998cd0370587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 17/52] fix: unsigned integers are printed as unsigned

---
 src/cxy/runtime/builtins.cxy | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index d111927..5fad674 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -643,6 +643,8 @@ pub class OutputStream {
                     append(val._data !: ^const void, val.size())
             else
                 appendString(val)
+        else #if (U.isUnsigned)
+            appendUnSignedInt(<u64>val)
         else #if (U.isInteger)
             appendSignedInt(<i64>val)
         else #if (U.isFloat)
-- 
2.43.0


From 51b3abfbd551aa0909b635000bc71fe500bc06f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:05 +0000
Subject: [PATCH 18/52] fix: resizing a String requires the new size to fit its
 capacity, not the other way round

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 5fad674..386ecbb 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -813,7 +813,7 @@ pub class String : OutputStream {
     }
 
     func resize(newSize: u64) {
-        assert!(_capacity <= newSize)
+        assert!(newSize <= _capacity)
         _size = newSize
         _data.[_size] = '\0'`char
     }
-- 
2.43.0


From c4295c7184afac70879b84f2b1b232fcbe36f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 19/52] fix: comparing string views looks at every byte, also
 after a NUL

---
 src/cxy/runtime/builtins.cxy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/runtime/builtins.cxy b/src/cxy/runtime/builtins.cxy
index 386ecbb..d161b9c 100644
--- a/src/cxy/runtime/builtins.cxy
+++ b/src/cxy/runtime/builtins.cxy
@@ -427,7 +427,7 @@ pub struct __string {
 
     const func compare(other: &This) {
         if (_size == other._size)
-            return strncmp(this.s, other.s, _size)
+            return memcmp(this.s !: ^const void, other.s !: ^const void, _size)
         else if (_size < other._size)
             return -1
         else
-- 
2.43.0


From 2c5a74b524cfec9e3ee1669eab17c2d46ec4015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 20/52] fix: the generated C groups operands the way the
 expression tree does

---
 src/cxy/lang/backend/c/generate.c | 65 +++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 22dccb6..5aa2bd4 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -872,14 +872,55 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
     generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
 }
 
+enum { precPostfix, precPrefix, precTernary = 14, precAssign };
+
+static int getOperandPrecedence(const AstNode *node)
+{
+    switch (node->tag) {
+    case astBinaryExpr:
+        return getBinaryOpPrecedence(node->binaryExpr.op);
+    case astTernaryExpr:
+        return precTernary;
+    case astAssignExpr:
+        return precAssign;
+    case astCastExpr:
+    case astTypedExpr:
+        return precPrefix;
+    case astUnaryExpr:
+        if (!node->unaryExpr.isPrefix)
+            return precPostfix;
+        if (node->unaryExpr.op == opMove)
+            return getOperandPrecedence(node->unaryExpr.operand);
+        return precPrefix;
+    default:
+        return precPostfix;
+    }
+}
+
+// The operand is a tree, it does not necessarily come with the parenthesis that
+// C needs (e.g. an expression passed to a macro)
+static void visitOperand(ConstAstVisitor *visitor,
+                         const AstNode *node,
+                         int precedence)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    bool grouped = getOperandPrecedence(node) > precedence;
+    if (grouped)
+        format(getState(ctx), "(", NULL);
+    astConstVisit(visitor, node);
+    if (grouped)
+        format(getState(ctx), ")", NULL);
+}
+
 static void visitBinaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->binaryExpr.lhs);
+    int precedence = getBinaryOpPrecedence(node->binaryExpr.op);
+    visitOperand(visitor, node->binaryExpr.lhs, precedence);
     format(getState(ctx),
            " {s} ",
            (FormatArg[]){{.s = getBinaryOpString(node->assignExpr.op)}});
-    astConstVisit(visitor, node->binaryExpr.rhs);
+    visitOperand(visitor, node->binaryExpr.rhs, precedence - 1);
 }
 
 static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -895,14 +936,14 @@ static void visitAssignExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitTernaryExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->ternaryExpr.cond);
+    visitOperand(visitor, node->ternaryExpr.cond, precTernary - 1);
     format(getState(ctx), "?", NULL);
     if (node->ternaryExpr.body) {
         format(getState(ctx), " ", NULL);
         astConstVisit(visitor, node->ternaryExpr.body);
     }
     format(getState(ctx), ": ", NULL);
-    astConstVisit(visitor, node->ternaryExpr.otherwise);
+    visitOperand(visitor, node->ternaryExpr.otherwise, precTernary);
 }
 
 static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -911,16 +952,24 @@ static void visitUnaryExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (node->unaryExpr.isPrefix) {
         switch (node->unaryExpr.op) {
         case opMove:
+            astConstVisit(visitor, node->unaryExpr.operand);
+            return;
+        case opMinus:
+        case opPlus:
+            // space needed, `- -x` is not `--x`
+            format(getState(ctx),
+                   "{s} ",
+                   (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
             break;
         default:
             format(getState(ctx),
                    "{s}",
                    (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
         }
-        astConstVisit(visitor, node->unaryExpr.operand);
+        visitOperand(visitor, node->unaryExpr.operand, precPrefix);
     }
     else {
-        astConstVisit(visitor, node->unaryExpr.operand);
+        visitOperand(visitor, node->unaryExpr.operand, precPostfix);
         format(getState(ctx),
                "{s}",
                (FormatArg[]){{.s = getUnaryOpString(node->unaryExpr.op)}});
@@ -1024,7 +1073,7 @@ static void visitMemberExpr(ConstAstVisitor *visitor, const AstNode *node)
     }
 
     if (!isImportDeclReference(target)) {
-        astConstVisit(visitor, target);
+        visitOperand(visitor, target, precPostfix);
         if (isPointerType(target->type) || isClassType(target->type) ||
             isReferenceType(target->type))
             format(getState(ctx), "->", NULL);
@@ -1066,7 +1115,7 @@ static void visitReferenceOfExpr(ConstAstVisitor *visitor, const AstNode *node)
 static void visitIndexExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    astConstVisit(visitor, node->indexExpr.target);
+    visitOperand(visitor, node->indexExpr.target, precPostfix);
     format(getState(ctx), "[", NULL);
     astConstVisit(visitor, node->indexExpr.index);
     format(getState(ctx), "]", NULL);
-- 
2.43.0


From 6864b89349175c008a77978ece8e879f35490dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 21/52] fix: an integer switch label only has to be in the
 range of the switched type

---
 src/cxy/lang/middle/sema/switch.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/switch.c b/src/cxy/lang/middle/sema/switch.c
index a462284..2f1dcf7 100644
--- a/src/cxy/lang/middle/sema/switch.c
+++ b/src/cxy/lang/middle/sema/switch.c
@@ -140,7 +140,9 @@ void checkCaseStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->caseStmt.match) {
         const Type *match = checkType(visitor, node->caseStmt.match);
-        if (!isTypeAssignableFrom(match, cond)) {
+        // integer labels only have to be in the range of the condition (below)
+        if (!(isIntegerType(match) && isIntegerType(unwrapType(cond, NULL))) &&
+            !isTypeAssignableFrom(match, cond)) {
             logError(
                 ctx->L,
                 &node->caseStmt.match->loc,
-- 
2.43.0


From 84856cebbad8de79ddcb5fe97e64d6afd6509590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 22/52] fix: a catch may yield a literal that fits the
 expression's type

---
 src/cxy/lang/middle/sema/check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 38a9368..827c2b4 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -301,7 +301,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
 
     const Type *target = getResultTargetType(lhs->type);
     if (block->type == NULL) {
-        if (!isTypeAssignableFrom(lhs->type, type)) {
+        if (!isTypeAssignableFrom(target, type)) {
             logError(ctx->L,
                      &node->loc,
                      "catch yield value '{t}' not assignable to expression "
@@ -310,7 +310,7 @@ static void checkYieldStmt(AstVisitor *visitor, AstNode *node)
             node->type = ERROR_TYPE(ctx);
             return;
         }
-        block->type = type;
+        block->type = target;
         node->type = type;
     }
     else if (typeIs(block->type, Error)) {
-- 
2.43.0


From f543dd1160cd6aac25f4a0ee5c6d5f8ecc5c72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 23/52] fix: break inside a switch leaves the enclosing loop,
 whose variables it drops

---
 src/cxy/lang/backend/c/generate.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 5aa2bd4..b8d8229 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -30,6 +30,9 @@ typedef struct CodegenContext {
     FormatState state;
     cstring loopUpdate;
     bool loopUpdateUsed;
+    cstring loopEnd;
+    bool loopEndUsed;
+    bool inSwitch;
     bool hasTestCases;
     bool memTraceEnabled;
     bool inLoop;
@@ -1573,8 +1576,14 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     cstring previousUpdate = ctx->loopUpdate;
     bool previousUpdateUsed = ctx->loopUpdateUsed;
+    cstring previousEnd = ctx->loopEnd;
+    bool previousEndUsed = ctx->loopEndUsed;
     bool previousInLoop = ctx->inLoop;
+    bool previousInSwitch = ctx->inSwitch;
     ctx->loopUpdateUsed = false;
+    ctx->loopEnd = NULL;
+    ctx->loopEndUsed = false;
+    ctx->inSwitch = false;
     ctx->inLoop = true;
     if (node->whileStmt.update)
         ctx->loopUpdate = makeAnonymousVariable(ctx->strings, "__update");
@@ -1594,19 +1603,27 @@ static void visitWhileStmt(ConstAstVisitor *visitor, const AstNode *node)
     }
     astConstVisit(visitor, node->whileStmt.update);
     format(getState(ctx), "{<}\n}", NULL);
+    if (ctx->loopEndUsed)
+        format(getState(ctx), "\n{s}:;", (FormatArg[]){{.s = ctx->loopEnd}});
     EosNl(ctx, node);
     ctx->loopUpdate = previousUpdate;
     ctx->loopUpdateUsed = previousUpdateUsed;
+    ctx->loopEnd = previousEnd;
+    ctx->loopEndUsed = previousEndUsed;
     ctx->inLoop = previousInLoop;
+    ctx->inSwitch = previousInSwitch;
 }
 
 static void visitSwitchStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    bool previousInSwitch = ctx->inSwitch;
+    ctx->inSwitch = true;
     format(getState(ctx), "switch (", NULL);
     astConstVisit(visitor, node->switchStmt.cond);
     format(getState(ctx), ") ", NULL);
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", NULL);
+    ctx->inSwitch = previousInSwitch;
     if (node->switchStmt.defaultCase == NULL) {
         format(getState(ctx),
                "\n"
@@ -1628,7 +1645,10 @@ static void visitMatchStmt(ConstAstVisitor *visitor, const AstNode *node)
     else
         format(getState(ctx), ".tag", NULL);
     format(getState(ctx), ") ", NULL);
+    bool previousInSwitch = ctx->inSwitch;
+    ctx->inSwitch = true;
     generateMany(visitor, node->switchStmt.cases, "{{\n", "\n", "\n}");
+    ctx->inSwitch = previousInSwitch;
     EosNl(ctx, node);
 }
 
@@ -1685,7 +1705,15 @@ static void visitBreakStmt(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
     addDebugInfo(ctx, node);
-    format(getState(ctx), "break;", NULL);
+    if (ctx->inSwitch && ctx->inLoop) {
+        // a C break would only leave the switch, not the loop
+        if (ctx->loopEnd == NULL)
+            ctx->loopEnd = makeAnonymousVariable(ctx->strings, "__loopEnd");
+        format(getState(ctx), "goto {s};", (FormatArg[]){{.s = ctx->loopEnd}});
+        ctx->loopEndUsed = true;
+    }
+    else
+        format(getState(ctx), "break;", NULL);
     EosNl(ctx, node);
 }
 
-- 
2.43.0


From 9e360a0736530350e5ae8163b436834dad959347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 24/52] fix: a literal range like 0..300 counts in a type that
 reaches its end

---
 src/cxy/lang/middle/sema/for.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index da96f7f..86b8295 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -326,6 +326,11 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     const Type *end = checkType(visitor, node->rangeExpr.end);
+    if (isNumericType(end) && !isTypeAssignableFrom(start, end) &&
+        isTypeAssignableFrom(end, start)) {
+        // the loop variable must be able to reach the end, e.g 0..300
+        start = end;
+    }
     if (!isTypeAssignableFrom(start, end)) {
         logError(ctx->L,
                  &node->rangeExpr.end->loc,
-- 
2.43.0


From ec956752859bfad84fd1da61f1e9e32b0831a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 25/52] fix: a range loop stops when it passes its end, also
 with a negative or descending step

---
 src/cxy/lang/middle/sema/for.c          |  2 +-
 src/cxy/lang/middle/simplify/simplify.c | 37 ++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/sema/for.c b/src/cxy/lang/middle/sema/for.c
index 86b8295..bba73f1 100644
--- a/src/cxy/lang/middle/sema/for.c
+++ b/src/cxy/lang/middle/sema/for.c
@@ -341,7 +341,7 @@ void checkRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (node->rangeExpr.step) {
-        const Type *step = checkType(visitor, node->rangeExpr.end);
+        const Type *step = checkType(visitor, node->rangeExpr.step);
         if (!isNumericType(step)) {
             logError(ctx->L,
                      &node->rangeExpr.start->loc,
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 6775ccc..3402daa 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -119,6 +119,27 @@ static AstNode *virtualDispatch(SimplifyContext *ctx,
                           vTableFunc->type);
 }
 
+static Operator getRangeCondition(const AstNode *range)
+{
+    const AstNode *step = range->rangeExpr.step;
+    if (step == NULL)
+        return range->rangeExpr.down ? opGt : opLt;
+
+    bool isNegative = false;
+    if (nodeIs(step, UnaryExpr) && step->unaryExpr.op == opMinus) {
+        isNegative = true;
+        step = step->unaryExpr.operand;
+    }
+    if (nodeIs(step, IntegerLit))
+        isNegative ^= integerLiteralValue(step) < 0;
+    else if (nodeIs(step, FloatLit))
+        isNegative ^= step->floatLiteral.value < 0;
+    else
+        return opNe;
+
+    return isNegative == range->rangeExpr.down ? opLt : opGt;
+}
+
 static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
 {
     SimplifyContext *ctx = getAstVisitorContext(visitor);
@@ -145,9 +166,17 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                               var,
                                               NULL,
                                               var->type),
-                       opNe,
-                       // range.end
-                       range->rangeExpr.end,
+                       getRangeCondition(range),
+                       // range.end, compared as the type of x
+                       makeCastExpr(
+                           ctx->pool,
+                           &range->loc,
+                           flgNone,
+                           range->rangeExpr.end,
+                           makeTypeReferenceNode(
+                               ctx->pool, var->type, &range->loc),
+                           NULL,
+                           var->type),
                        NULL,
                        getPrimitiveType(ctx->types, prtBool)),
         // ...
@@ -171,7 +200,7 @@ static void simplifyForRangeStmt(AstVisitor *visitor, AstNode *node)
                                        var,
                                        NULL,
                                        var->type),
-                opAdd,
+                range->rangeExpr.down ? opSub : opAdd,
                 // range.step
                 range->rangeExpr.step
                     ?: makeIntegerLiteral(
-- 
2.43.0


From 99c86063e25d8db1b3e6062816dd04601c1e4229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:26 +0000
Subject: [PATCH 26/52] fix: compile time ranges may have a step, also a
 negative one

---
 src/cxy/lang/middle/eval/eval.c | 2 +-
 src/cxy/lang/middle/eval/for.c  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 46a75c2..4db6cc8 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -276,7 +276,7 @@ void evalRangeExpr(AstVisitor *visitor, AstNode *node)
     }
 
     if (!nodeIs(start, IntegerLit) || !nodeIs(end, IntegerLit) ||
-        (step && nodeIs(step, IntegerLit))) {
+        (step && !nodeIs(step, IntegerLit))) {
         logError(
             ctx->L,
             &node->loc,
diff --git a/src/cxy/lang/middle/eval/for.c b/src/cxy/lang/middle/eval/for.c
index ba9cd03..da329ee 100644
--- a/src/cxy/lang/middle/eval/for.c
+++ b/src/cxy/lang/middle/eval/for.c
@@ -177,13 +177,16 @@ static bool evalForStmtWithRange(AstVisitor *visitor,
         step = range->rangeExpr.step
                    ? integerLiteralValue(range->rangeExpr.step)
                    : 1;
+    if (range->rangeExpr.down)
+        step = -step;
 
-    for (; i < count; i += step) {
+    for (; step < 0 ? i > count : i < count; i += step) {
         AstNode *body = deepCloneAstNode(ctx->pool, node->forStmt.body);
         variable->varDecl.init = makeAstNode(
             ctx->pool,
             &range->loc,
-            &(AstNode){.tag = astIntegerLit, .intLiteral.value = i});
+            &(AstNode){.tag = astIntegerLit,
+                       .intLiteral = {.isNegative = i < 0, .value = i}});
 
         if (body) {
             body->parentScope = node->parentScope;
-- 
2.43.0


From 0d34c6f926452f8332a38580a72cc0dabdf76368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:57 +0000
Subject: [PATCH 27/52] fix: a range label of a switch is generated as a range

---
 src/cxy/lang/backend/c/generate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index b8d8229..6db31a9 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -1668,6 +1668,12 @@ static void visitCaseStmt(ConstAstVisitor *visitor, const AstNode *node)
                 format(getState(ctx), "\n", NULL);
             }
         }
+        else if (nodeIs(node->caseStmt.match, RangeExpr)) {
+            astConstVisit(visitor, node->caseStmt.match->rangeExpr.start);
+            format(getState(ctx), " ... ", NULL);
+            astConstVisit(visitor, node->caseStmt.match->rangeExpr.end);
+            format(getState(ctx), ": {{{>}\n", NULL);
+        }
         else {
             astConstVisit(visitor, node->caseStmt.match);
             format(getState(ctx), ": {{{>}\n", NULL);
-- 
2.43.0


From b5299341a0f1b57431e1d982f5285c533f89f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:13 +0000
Subject: [PATCH 28/52] fix: all labels of a case list run the body of the list

---
 src/cxy/lang/frontend/parser.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 1ed0623..0815cb1 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -2448,8 +2448,22 @@ static AstNode *caseStatement(Parser *P)
                                  .caseStmt = {.match = match, .body = body}});
 }
 
+// `case X, Y => body`, the body belongs to all the labels in the list
+static AstNode *shareCaseBody(Parser *P, AstNode *pending, AstNode *node)
+{
+    if (!nodeIs(node, CaseStmt))
+        return NULL;
+    if (previous(P)->tag == tokComma)
+        return pending ?: node;
+    for (; pending && pending != node; pending = pending->next)
+        pending->caseStmt.body =
+            deepCloneAstNode(P->memPool, node->caseStmt.body);
+    return NULL;
+}
+
 static AstNode *switchStatement(Parser *P)
 {
+    AstNode *pending = NULL;
     AstNodeList cases = {NULL};
     Token tok = *consume0(P, tokSwitch);
 
@@ -2459,7 +2473,9 @@ static AstNode *switchStatement(Parser *P)
 
     consume0(P, tokLBrace);
     while (!check(P, tokRBrace, tokEoF)) {
-        listAddAstNode(&cases, comptime(P, caseStatement));
+        AstNode *node = comptime(P, caseStatement);
+        listAddAstNode(&cases, node);
+        pending = shareCaseBody(P, pending, node);
     }
     consume0(P, tokRBrace);
 
@@ -2519,6 +2535,7 @@ static AstNode *matchCaseStatement(Parser *P)
 
 static AstNode *matchStatement(Parser *P)
 {
+    AstNode *pending = NULL;
     AstNodeList cases = {NULL};
     Token tok = *consume0(P, tokMatch);
 
@@ -2528,7 +2545,9 @@ static AstNode *matchStatement(Parser *P)
 
     consume0(P, tokLBrace);
     while (!check(P, tokRBrace, tokEoF)) {
-        listAddAstNode(&cases, comptime(P, matchCaseStatement));
+        AstNode *node = comptime(P, matchCaseStatement);
+        listAddAstNode(&cases, node);
+        pending = shareCaseBody(P, pending, node);
     }
     consume0(P, tokRBrace);
 
-- 
2.43.0


From bd66c537c03afec58e84ae11b52c4a331930835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 29/52] fix: enumerating a string visits its characters

---
 src/cxy/lang/middle/simplify/simplify.c | 63 +++++++++++++++++--------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 3402daa..7e8ff4c 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -266,25 +266,50 @@ static void simplifyForArrayStmt(AstVisitor *visitor, AstNode *node)
                             : makePointerType(ctx->types, elem, flgNone));
     index->next = range;
 
-    AstNode *condition = makeBinaryExpr(
-        ctx->pool,
-        &range->loc,
-        flgNone,
-        makeResolvedIdentifier(ctx->pool,
-                               &range->loc,
-                               index->varDecl.name,
-                               0,
-                               index,
-                               NULL,
-                               index->type),
-        opLt,
-        makeUnsignedIntegerLiteral(ctx->pool,
-                                   &range->loc,
-                                   rangeType->array.len,
-                                   NULL,
-                                   getPrimitiveType(ctx->types, prtU64)),
-        NULL,
-        getPrimitiveType(ctx->types, prtBool));
+    AstNode *position = makeResolvedIdentifier(ctx->pool,
+                                               &range->loc,
+                                               index->varDecl.name,
+                                               0,
+                                               index,
+                                               NULL,
+                                               index->type);
+    // strings end with a NUL, arrays have a known length
+    AstNode *condition =
+        typeIs(rangeType, String)
+            ? makeBinaryExpr(
+                  ctx->pool,
+                  &range->loc,
+                  flgNone,
+                  makeIndexExpr(ctx->pool,
+                                &range->loc,
+                                elem->flags,
+                                makeResolvedIdentifier(ctx->pool,
+                                                       &range->loc,
+                                                       range->varDecl.name,
+                                                       0,
+                                                       range,
+                                                       NULL,
+                                                       range->type),
+                                position,
+                                NULL,
+                                elem),
+                  opNe,
+                  makeIntegerLiteral(ctx->pool, &range->loc, 0, NULL, elem),
+                  NULL,
+                  getPrimitiveType(ctx->types, prtBool))
+            : makeBinaryExpr(ctx->pool,
+                             &range->loc,
+                             flgNone,
+                             position,
+                             opLt,
+                             makeUnsignedIntegerLiteral(
+                                 ctx->pool,
+                                 &range->loc,
+                                 rangeType->array.len,
+                                 NULL,
+                                 getPrimitiveType(ctx->types, prtU64)),
+                             NULL,
+                             getPrimitiveType(ctx->types, prtBool));
 
     AstNode *assign = makeExprStmt(
         ctx->pool,
-- 
2.43.0


From d82c87f863234f47a303f7bdd787bb068b4496d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 30/52] fix: take the assigned value before dropping the one it
 replaces

---
 src/cxy/lang/middle/mem/manage.c | 39 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index c0311e8..bb07e68 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -469,6 +469,28 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static void takeAssignedValue(MemContext *ctx, AstNode *node)
+{
+    AstNode *rhs = node->assignExpr.rhs;
+    if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs))
+        rhs = makeCopyExpr(ctx, rhs);
+    if (isLiteralExpr(rhs))
+        return;
+    // The new value might depend on the value being replaced, it must be
+    // available before the latter is dropped
+    AstNode *value = makeVarDecl(ctx->pool,
+                                 &rhs->loc,
+                                 flgTemporary,
+                                 makeAnonymousVariable(ctx->strings, "_as"),
+                                 NULL,
+                                 rhs,
+                                 NULL,
+                                 node->assignExpr.lhs->type);
+    astModifierAdd(&ctx->blockModifier, value);
+    node->assignExpr.rhs = makeResolvedIdentifier(
+        ctx->pool, &rhs->loc, value->_name, 0, value, NULL, value->type);
+}
+
 static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 {
     MemContext *ctx = getAstVisitorContext(visitor);
@@ -480,14 +502,13 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         astVisit(visitor, rhs);
         csAssert0(vt);
         if (vtNeedsMemMgmt(ctx, vt)) {
+            takeAssignedValue(ctx, node);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
                                ctx, vt, vtIsUpdatedInChildScopeLoop(ctx, vt)));
         }
-        if (nodeIs(rhs, NullLit)) {
-            node->tag = astNoop;
-            vt->state = isClassType(lhs->type) ? vtsDropped : vtsAssigned;
-            return;
+        else if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
+            node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
         }
         vt->state = vtsAssigned;
         return;
@@ -495,14 +516,14 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
 
     lhs = node->assignExpr.lhs;
     if (isLeftValueExpr(lhs) && nodeNeedsMemMgmt(lhs)) {
-        astModifierAdd(&ctx->blockModifier,
-                       makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs)));
+        AstNode *drop = makeDropExpr(ctx, deepCloneAstNode(ctx->pool, lhs));
         astVisit(visitor, node->assignExpr.rhs);
-    }
-    else {
-        astVisitFallbackVisitAll(visitor, node);
+        takeAssignedValue(ctx, node);
+        astModifierAdd(&ctx->blockModifier, drop);
+        return;
     }
 
+    astVisitFallbackVisitAll(visitor, node);
     AstNode *rhs = node->assignExpr.rhs;
     if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
         node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
-- 
2.43.0


From cd8b7df79dd5e74144e630c6aecfef77cd3fa1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 31/52] fix: interning compares whole texts, and joined or
 generated names may have any length

---
 src/cxy/core/strpool.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/cxy/core/strpool.c b/src/cxy/core/strpool.c
index 3daa438..c786e95 100644
--- a/src/cxy/core/strpool.c
+++ b/src/cxy/core/strpool.c
@@ -1,4 +1,5 @@
 #include "core/strpool.h"
+#include "core/alloc.h"
 #include "core/hash.h"
 #include "core/mempool.h"
 #include "core/utils.h"
@@ -26,13 +27,13 @@ typedef struct {
 static bool compareStrFind(const void *left, const void *right)
 {
     SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    const char *pooled = *(char **)left;
+    return !strncmp(pooled, str->s, str->len) && pooled[str->len] == '\0';
 }
 
 static bool compareStrInsert(const void *left, const void *right)
 {
-    SizedString *str = (SizedString *)right;
-    return !strncmp(*(char **)left, str->s, str->len);
+    return !strcmp(*(char **)left, *(char **)right);
 }
 
 static cstring makeStringVargs(StrPool *strings, const char *fmt, va_list args)
@@ -95,7 +96,7 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
     u64 len;
     if (prefix == NULL) {
         prefix = "cxy_anonymous_var";
-        len = 19;
+        len = strlen(prefix);
     }
     else
         len = strlen(prefix);
@@ -109,25 +110,26 @@ const char *makeAnonymousVariable(StrPool *pool, const char *prefix)
 
 const char *makeStringConcat_(StrPool *pool, const char *s1, ...)
 {
-    char variable[MAX_ANONYMOUS_PREFIX_SIZE + 32];
-    size_t len = strlen(s1);
-    csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
-    memcpy(variable, s1, len);
-
     va_list ap;
+    size_t total = 0;
     va_start(ap, s1);
-    const char *s = va_arg(ap, const char *);
-    while (s) {
+    for (const char *s = s1; s; s = va_arg(ap, const char *))
+        total += strlen(s);
+    va_end(ap);
+
+    char *variable = mallocOrDie(total + 1);
+    size_t len = 0;
+    va_start(ap, s1);
+    for (const char *s = s1; s; s = va_arg(ap, const char *)) {
         size_t sz = strlen(s);
-        csAssert0(len < MAX_ANONYMOUS_PREFIX_SIZE);
         memcpy(&variable[len], s, sz);
-        s = va_arg(ap, const char *);
         len += sz;
     }
-    variable[len] = '\0';
     va_end(ap);
 
-    return makeString(pool, variable);
+    const char *str = makeStringSized(pool, variable, len);
+    free(variable);
+    return str;
 }
 
 cstring joinPath_(StrPool *pool, const char *p1, ...)
@@ -141,7 +143,7 @@ cstring joinPath_(StrPool *pool, const char *p1, ...)
         size_t sz = strlen(s);
         const char *next = va_arg(ap, const char *);
         if (sz > 0) {
-            csAssert0(sz + len < PATH_MAX);
+            csAssert0(sz + len + 1 < PATH_MAX);
             memcpy(&path[len], s, sz);
             len += sz;
             if (next && s[sz - 1] != '/')
-- 
2.43.0


From 897570510d55b9a18062ba5efc353613f02c6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 32/52] fix: a reset memory pool forgets its cached items, and
 tracked memory is resized with its header

---
 src/cxy/core/mempool.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cxy/core/mempool.c b/src/cxy/core/mempool.c
index 6fe365f..6715785 100644
--- a/src/cxy/core/mempool.c
+++ b/src/cxy/core/mempool.c
@@ -94,12 +94,18 @@ void *reallocTrackedMem(MemPool *pool, void *ptr, size_t size)
 {
     TrackedMemoryItem *item = ((TrackedMemoryItem *)ptr) - 1;
     pool->trackedAllocations.allocated -= item->size;
-    item = reallocOrDie(item, size);
+    item = reallocOrDie(item, size + sizeof(TrackedMemoryItem));
     item->size = size;
     pool->trackedAllocations.allocated += size;
 
     if (item->prev)
         item->prev->next = item;
+    else
+        pool->trackedAllocations.first = item;
+    if (item->next)
+        item->next->prev = item;
+    else
+        pool->trackedAllocations.last = item;
     return item + 1;
 }
 
@@ -143,6 +149,8 @@ void resetMemPool(MemPool *mem_pool)
         block = block->next;
     }
     mem_pool->cur = mem_pool->first;
+    // the cached items live in the blocks that were just reset
+    memset(mem_pool->caches, 0, sizeof(mem_pool->caches));
 }
 
 void freeMemPool(MemPool *mem_pool)
-- 
2.43.0


From c6aa9a02aa8b32964ac91a401897d5c8b253a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 33/52] fix: pushing on an array delivers the place of the new
 element

---
 src/cxy/core/array.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cxy/core/array.c b/src/cxy/core/array.c
index 698097a..0ae8653 100644
--- a/src/cxy/core/array.c
+++ b/src/cxy/core/array.c
@@ -50,11 +50,10 @@ void *pushOnDynArrayExplicit(DynArray *array, const void *elem, size_t elemSize)
     assert(elemSize == array->elemSize);
     if (array->size >= array->capacity)
         growDynArray(array, array->size + 1);
-    memcpy((char *)array->elems + array->elemSize * array->size,
-           elem,
-           array->elemSize);
+    void *added = (char *)array->elems + array->elemSize * array->size;
+    memcpy(added, elem, array->elemSize);
     array->size++;
-    return array->elems + array->elemSize * array->size;
+    return added;
 }
 
 void copyDynArray(DynArray *dst, const DynArray *src)
-- 
2.43.0


From 067b78ff29962d373abf4dc5e3a4700049d74bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 34/52] fix: a string builder of capacity 0 can grow

---
 src/cxy/core/sb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxy/core/sb.c b/src/cxy/core/sb.c
index 90a1558..b29367c 100644
--- a/src/cxy/core/sb.c
+++ b/src/cxy/core/sb.c
@@ -52,6 +52,8 @@ void stringBuilderGrow(StringBuilder *sb, u64 size)
         sb->capacity = size;
     }
     else if (size > (sb->capacity - sb->size)) {
+        if (sb->capacity == 0)
+            sb->capacity = size;
         while (sb->capacity < sb->size + size) {
             sb->capacity <<= 1;
         }
-- 
2.43.0


From 368b5e41dc72338614cd8e3c3d4804a85e16562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:59 +0000
Subject: [PATCH 35/52] fix: putting a key that is in a hash map replaces it
 instead of adding it twice

---
 src/cxy/core/hmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/core/hmap.c b/src/cxy/core/hmap.c
index c6aa618..5511a1f 100644
--- a/src/cxy/core/hmap.c
+++ b/src/cxy/core/hmap.c
@@ -135,7 +135,7 @@ static HmapStatus hmapPutInternal(Hmap *self, void *data)
         }
 
         u64 p = hmapProbe(self, i, h);
-        if (j >= p) {
+        if (j > p) {
             memcpy((char *)self->sspace1,
                    (char *)self->data + i * hmapStep(self),
                    hmapStep(self));
-- 
2.43.0


From 49ccae64c63a5b0f1e8c2e460ecd653509ced526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 36/52] fix: compile time evaluation of integers is exact,
 rejects division by zero and shifts out of range

---
 src/cxy/core/utils.h                      |   1 +
 src/cxy/lang/frontend/ast.h               |   8 ++
 src/cxy/lang/middle/eval/binary.c         | 128 ++++++++++++++-----
 src/cxy/lang/middle/eval/literal.c        |  53 +++++++-
 src/cxy/lang/middle/eval/unary.c          |  29 ++---
 src/cxy/lang/middle/preprocess/evaluate.c | 148 +++++++++++++++-------
 6 files changed, 271 insertions(+), 96 deletions(-)

diff --git a/src/cxy/core/utils.h b/src/cxy/core/utils.h
index 79fbd9a..8704a90 100644
--- a/src/cxy/core/utils.h
+++ b/src/cxy/core/utils.h
@@ -157,6 +157,7 @@ typedef uint32_t u32;
 typedef int32_t i32;
 typedef uint64_t u64;
 typedef int64_t i64;
+typedef __int128 i128;
 typedef float f32;
 typedef double f64;
 typedef uintptr_t uptr;
diff --git a/src/cxy/lang/frontend/ast.h b/src/cxy/lang/frontend/ast.h
index dffe9fe..a9ebc6d 100644
--- a/src/cxy/lang/frontend/ast.h
+++ b/src/cxy/lang/frontend/ast.h
@@ -1515,6 +1515,14 @@ void nodeSetNumericLiteral(AstNode *node,
                            AstNode *rhs,
                            f64 value);
 
+bool nodesAreIntegralLiterals(const AstNode *lhs, const AstNode *rhs);
+i128 nodeGetIntegralLiteral(const AstNode *node);
+void nodeSetIntegerLiteral(AstNode *node, i128 value);
+void nodeSetIntegralLiteral(AstNode *node,
+                            const AstNode *lhs,
+                            const AstNode *rhs,
+                            i128 value);
+
 bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs);
 
 static inline bool isClassOrStructAstNode(const AstNode *node)
diff --git a/src/cxy/lang/middle/eval/binary.c b/src/cxy/lang/middle/eval/binary.c
index 0a056f8..bbbefab 100644
--- a/src/cxy/lang/middle/eval/binary.c
+++ b/src/cxy/lang/middle/eval/binary.c
@@ -29,8 +29,9 @@ bool evalStringBuilderAppend(EvalContext *ctx, StringBuilder *sb, AstNode *node)
         break;
     case astIntegerLit:
         if (node->intLiteral.isNegative)
-            stringBuilderAppendChar(sb, '-');
-        stringBuilderAppendUInt(sb, node->intLiteral.uValue);
+            stringBuilderAppendInt(sb, node->intLiteral.value);
+        else
+            stringBuilderAppendUInt(sb, node->intLiteral.uValue);
         break;
     case astFloatLit:
         stringBuilderAppendFloat(sb, node->floatLiteral.value);
@@ -57,7 +58,7 @@ void evalStringConcatenation(EvalContext *ctx,
                              AstNode *lhs,
                              AstNode *rhs)
 {
-    StringBuilder sb;
+    StringBuilder sb = {0};
     stringBuilderInit(&sb);
     evalStringBuilderAppend(ctx, &sb, lhs);
     csAssert0(evalStringBuilderAppend(ctx, &sb, rhs));
@@ -120,8 +121,14 @@ static void evalAddOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) + nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
 }
 
 static void evalSubOperation(EvalContext *ctx, AstNode *node)
@@ -145,8 +152,14 @@ static void evalSubOperation(EvalContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) - nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
 }
 
 static void evalMulOperation(EvalContext *ctx, AstNode *node)
@@ -177,8 +190,27 @@ static void evalMulOperation(EvalContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) * nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
+}
+
+static bool checkIntegerDivision(EvalContext *ctx, AstNode *node)
+{
+    if (nodeGetIntegralLiteral(node->binaryExpr.rhs) != 0)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time integer `{s}` by zero",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+    node->tag = astError;
+    return false;
 }
 
 static void evalDivOperation(EvalContext *ctx, AstNode *node)
@@ -214,10 +246,9 @@ static void evalDivOperation(EvalContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (checkIntegerDivision(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) / nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
     }
 }
 
@@ -244,11 +275,10 @@ static void evalModOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (checkIntegerDivision(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) % nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
 }
 
 static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
@@ -302,16 +332,48 @@ static bool checkBinaryBitOperation(EvalContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeSetIntegralLiteral(node,                                           \
+                               lhs,                                            \
+                               rhs,                                            \
+                               nodeGetIntegralLiteral(lhs)                     \
+                                   OP nodeGetIntegralLiteral(rhs));            \
     }
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
+static bool checkShiftOperation(EvalContext *ctx, AstNode *node)
+{
+    if (!checkBinaryBitOperation(ctx, node))
+        return false;
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shr, >>)
+    i128 count = nodeGetIntegralLiteral(node->binaryExpr.rhs);
+    if (count >= 0 && count < 64)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time operand of `{s}` must be in the range [0, 63]",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+    node->tag = astError;
+    return false;
+}
+
+static void evalShlOperation(EvalContext *ctx, AstNode *node)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (checkShiftOperation(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) *
+                     ((i128)1 << nodeGetIntegralLiteral(rhs));
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+}
+
+static void evalShrOperation(EvalContext *ctx, AstNode *node)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (checkShiftOperation(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) >> nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+}
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd, &)
 
@@ -414,8 +476,12 @@ static bool checkComparisonOperation(EvalContext *ctx, AstNode *node)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        if (nodesAreIntegralLiterals(lhs, rhs))                                \
+            node->boolLiteral.value =                                          \
+                nodeGetIntegralLiteral(lhs) OP nodeGetIntegralLiteral(rhs);    \
+        else                                                                   \
+            node->boolLiteral.value =                                          \
+                nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);      \
     }
 
 static void evalIsOperation(EvalContext *ctx, AstNode *node)
@@ -458,8 +524,12 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        if (nodesAreIntegralLiterals(lhs, rhs))                                \
+            node->boolLiteral.value =                                          \
+                nodeGetIntegralLiteral(lhs) OP nodeGetIntegralLiteral(rhs);    \
+        else                                                                   \
+            node->boolLiteral.value =                                          \
+                nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);      \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
diff --git a/src/cxy/lang/middle/eval/literal.c b/src/cxy/lang/middle/eval/literal.c
index 37e8bed..09c1f8b 100644
--- a/src/cxy/lang/middle/eval/literal.c
+++ b/src/cxy/lang/middle/eval/literal.c
@@ -18,7 +18,8 @@ f64 nodeGetNumericLiteral(const AstNode *node)
     case astCharLit:
         return node->charLiteral.value;
     case astIntegerLit:
-        return (f64)integerLiteralValue(node);
+        return node->intLiteral.isNegative ? (f64)node->intLiteral.value
+                                           : (f64)node->intLiteral.uValue;
     case astFloatLit:
         return node->floatLiteral.value;
     default:
@@ -26,6 +27,54 @@ f64 nodeGetNumericLiteral(const AstNode *node)
     }
 }
 
+bool nodesAreIntegralLiterals(const AstNode *lhs, const AstNode *rhs)
+{
+    return !nodeIs(lhs, FloatLit) && !nodeIs(rhs, FloatLit);
+}
+
+i128 nodeGetIntegralLiteral(const AstNode *node)
+{
+    switch (node->tag) {
+    case astNullLit:
+        return 0;
+    case astBoolLit:
+        return node->boolLiteral.value;
+    case astCharLit:
+        return node->charLiteral.value;
+    case astIntegerLit:
+        return node->intLiteral.isNegative ? (i128)node->intLiteral.value
+                                           : (i128)node->intLiteral.uValue;
+    default:
+        unreachable("NOT AN INTEGRAL LITERAL");
+    }
+}
+
+void nodeSetIntegerLiteral(AstNode *node, i128 value)
+{
+    node->tag = astIntegerLit;
+    node->intLiteral.value = (i64)value;
+    node->intLiteral.isNegative = value < 0 && node->intLiteral.value < 0;
+}
+
+void nodeSetIntegralLiteral(AstNode *node,
+                            const AstNode *lhs,
+                            const AstNode *rhs,
+                            i128 value)
+{
+    if (nodeIs(lhs, BoolLit) && nodeIs(rhs, BoolLit)) {
+        node->tag = astBoolLit;
+        node->boolLiteral.value = value != 0;
+    }
+    else if (nodeIs(lhs, CharLit) &&
+             (nodeIs(rhs, BoolLit) || nodeIs(rhs, CharLit))) {
+        node->tag = astCharLit;
+        node->charLiteral.value = (wchar)value;
+    }
+    else {
+        nodeSetIntegerLiteral(node, value);
+    }
+}
+
 i64 getEnumLiteralValue(const AstNode *node)
 {
     csAssert0(typeIs(node->type, Enum));
@@ -50,7 +99,7 @@ void nodeSetNumericLiteral(AstNode *node, AstNode *lhs, AstNode *rhs, f64 value)
     case astBoolLit:
         if (nodeIs(rhs, BoolLit)) {
             node->tag = astBoolLit;
-            node->boolLiteral.value = value == 0;
+            node->boolLiteral.value = value != 0;
         }
         else if (nodeIs(rhs, CharLit) || nodeIs(rhs, IntegerLit)) {
             node->tag = astIntegerLit;
diff --git a/src/cxy/lang/middle/eval/unary.c b/src/cxy/lang/middle/eval/unary.c
index a8e881e..57165c3 100644
--- a/src/cxy/lang/middle/eval/unary.c
+++ b/src/cxy/lang/middle/eval/unary.c
@@ -43,18 +43,13 @@ static void evalPrefixMinusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = -nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, -nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -64,18 +59,13 @@ static void evalPrefixPlusOperation(EvalContext *ctx, AstNode *node)
     if (!evalVerifyIntegerOrFloatOperand(ctx, rhs, node->unaryExpr.op))
         return;
 
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = +nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, +nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -91,7 +81,7 @@ static void evalLogicNotOperation(EvalContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit)) {
         logError(ctx->L,
                  &node->loc,
@@ -102,8 +92,7 @@ static void evalBitNotOperation(EvalContext *ctx, AstNode *node)
         return;
     }
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeSetIntegerLiteral(node, ~nodeGetIntegralLiteral(rhs));
 }
 
 void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
@@ -133,7 +122,7 @@ void evalUnaryExpr(AstVisitor *visitor, AstNode *node)
     case opNot:
         evalLogicNotOperation(ctx, node);
         break;
-    case opBAnd:
+    case opCompl:
         evalBitNotOperation(ctx, node);
         break;
     default:
diff --git a/src/cxy/lang/middle/preprocess/evaluate.c b/src/cxy/lang/middle/preprocess/evaluate.c
index 1506f60..13453f3 100644
--- a/src/cxy/lang/middle/preprocess/evaluate.c
+++ b/src/cxy/lang/middle/preprocess/evaluate.c
@@ -22,8 +22,14 @@ static void evalAddOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) + nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) + nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
 }
 
 static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
@@ -38,8 +44,14 @@ static void evalSubOperation(PreprocessorContext *ctx, AstNode *node)
             NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) - nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) - nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
 }
 
 static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
@@ -60,8 +72,27 @@ static void evalMulOperation(PreprocessorContext *ctx, AstNode *node)
                    NULL);
     }
 
-    f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
-    nodeSetNumericLiteral(node, lhs, rhs, value);
+    if (nodesAreIntegralLiterals(lhs, rhs)) {
+        i128 value = nodeGetIntegralLiteral(lhs) * nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+    else {
+        f64 value = nodeGetNumericLiteral(lhs) * nodeGetNumericLiteral(rhs);
+        nodeSetNumericLiteral(node, lhs, rhs, value);
+    }
+}
+
+static bool checkIntegerDivision(PreprocessorContext *ctx, AstNode *node)
+{
+    if (nodeGetIntegralLiteral(node->binaryExpr.rhs) != 0)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time integer `{s}` by zero",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+    node->tag = astError;
+    return false;
 }
 
 static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
@@ -88,10 +119,9 @@ static void evalDivOperation(PreprocessorContext *ctx, AstNode *node)
         node->floatLiteral.value =
             nodeGetNumericLiteral(lhs) / nodeGetNumericLiteral(rhs);
     }
-    else {
-        i64 value =
-            (i64)nodeGetNumericLiteral(lhs) / (i64)nodeGetNumericLiteral(rhs);
-        nodeSetNumericLiteral(node, lhs, rhs, (f64)value);
+    else if (checkIntegerDivision(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) / nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
     }
 }
 
@@ -108,11 +138,10 @@ static void evalModOperation(PreprocessorContext *ctx, AstNode *node)
         return;
     }
 
-    nodeSetNumericLiteral(node,
-                          lhs,
-                          rhs,
-                          (f64)((i64)nodeGetNumericLiteral(lhs) %
-                                (i64)nodeGetNumericLiteral(rhs)));
+    if (checkIntegerDivision(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) % nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
 }
 
 static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
@@ -157,16 +186,48 @@ static bool checkBinaryBitOperation(PreprocessorContext *ctx, AstNode *node)
         if (!checkBinaryBitOperation(ctx, node))                               \
             return;                                                            \
                                                                                \
-        nodeSetNumericLiteral(node,                                            \
-                              lhs,                                             \
-                              rhs,                                             \
-                              (f64)((i64)nodeGetNumericLiteral(lhs) OP(i64)    \
-                                        nodeGetNumericLiteral(rhs)));          \
+        nodeSetIntegralLiteral(node,                                           \
+                               lhs,                                            \
+                               rhs,                                            \
+                               nodeGetIntegralLiteral(lhs)                     \
+                                   OP nodeGetIntegralLiteral(rhs));            \
     }
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shl, <<)
+static bool checkShiftOperation(PreprocessorContext *ctx, AstNode *node)
+{
+    if (!checkBinaryBitOperation(ctx, node))
+        return false;
 
-CXY_DEFINE_BINARY_BIT_OPERATOR(Shr, >>)
+    i128 count = nodeGetIntegralLiteral(node->binaryExpr.rhs);
+    if (count >= 0 && count < 64)
+        return true;
+
+    logError(ctx->L,
+             &node->loc,
+             "comp-time operand of `{s}` must be in the range [0, 63]",
+             (FormatArg[]){{.s = getBinaryOpString(node->binaryExpr.op)}});
+    node->tag = astError;
+    return false;
+}
+
+static void evalShlOperation(PreprocessorContext *ctx, AstNode *node)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (checkShiftOperation(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) *
+                     ((i128)1 << nodeGetIntegralLiteral(rhs));
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+}
+
+static void evalShrOperation(PreprocessorContext *ctx, AstNode *node)
+{
+    AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
+    if (checkShiftOperation(ctx, node)) {
+        i128 value = nodeGetIntegralLiteral(lhs) >> nodeGetIntegralLiteral(rhs);
+        nodeSetIntegralLiteral(node, lhs, rhs, value);
+    }
+}
 
 CXY_DEFINE_BINARY_BIT_OPERATOR(BAnd, &)
 
@@ -207,8 +268,12 @@ static void evalIsOperation(PreprocessorContext *ctx, AstNode *node)
                                                                                \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        if (nodesAreIntegralLiterals(lhs, rhs))                                \
+            node->boolLiteral.value =                                          \
+                nodeGetIntegralLiteral(lhs) OP nodeGetIntegralLiteral(rhs);    \
+        else                                                                   \
+            node->boolLiteral.value =                                          \
+                nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);      \
     }
 
 CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Eq, ==)
@@ -223,8 +288,12 @@ CXY_DEFINE_BINARY_EQ_COMP_OPERATOR(Ne, !=)
         AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;      \
         memset(&node->_body, 0, CXY_AST_NODE_BODY_SIZE);                       \
         node->tag = astBoolLit;                                                \
-        node->boolLiteral.value =                                              \
-            nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);          \
+        if (nodesAreIntegralLiterals(lhs, rhs))                                \
+            node->boolLiteral.value =                                          \
+                nodeGetIntegralLiteral(lhs) OP nodeGetIntegralLiteral(rhs);    \
+        else                                                                   \
+            node->boolLiteral.value =                                          \
+                nodeGetNumericLiteral(lhs) OP nodeGetNumericLiteral(rhs);      \
     }
 
 CXY_DEFINE_BINARY_COMP_OPERATOR(Lt, <)
@@ -268,36 +337,26 @@ static void evalPrefixMinusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
 
-    f64 value = -nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = -nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, -nodeGetIntegralLiteral(rhs));
     }
 }
 
 static void evalPrefixPlusOperation(PreprocessorContext *ctx, AstNode *node)
 {
     AstNode *rhs = node->unaryExpr.operand;
-    f64 value = +nodeGetNumericLiteral(rhs);
-    if (nodeIs(node, FloatLit)) {
+    if (nodeIs(rhs, FloatLit)) {
+        f64 value = +nodeGetNumericLiteral(rhs);
         node->tag = astFloatLit;
         node->floatLiteral.value = value;
     }
     else {
-        node->tag = astIntegerLit;
-        node->intLiteral.isNegative = value < 0;
-        if (node->intLiteral.isNegative)
-            node->intLiteral.value = (i64)value;
-        else
-            node->intLiteral.uValue = (u64)value;
+        nodeSetIntegerLiteral(node, +nodeGetIntegralLiteral(rhs));
     }
 }
 
@@ -310,12 +369,11 @@ static void evalLogicNotOperation(PreprocessorContext *ctx, AstNode *node)
 
 static void evalBitNotOperation(PreprocessorContext *ctx, AstNode *node)
 {
-    AstNode *rhs = node->binaryExpr.lhs;
+    AstNode *rhs = node->unaryExpr.operand;
     if (!nodeIs(rhs, IntegerLit) && !nodeIs(rhs, CharLit))
         return;
 
-    node->tag = astIntegerLit;
-    node->intLiteral.uValue = ~((u64)nodeGetNumericLiteral(rhs));
+    nodeSetIntegerLiteral(node, ~nodeGetIntegralLiteral(rhs));
 }
 
 void preprocessorEvalUnaryExpr(PreprocessorContext *ctx, AstNode *node)
-- 
2.43.0


From 0a1df9eb705ed9dd965e81f38fae0561be00a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 37/52] fix: casting a literal yields the value and sign of the
 target type

---
 src/cxy/lang/middle/sema/cast.c | 78 +++++++++++----------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/src/cxy/lang/middle/sema/cast.c b/src/cxy/lang/middle/sema/cast.c
index 6074c0a..839b4b5 100644
--- a/src/cxy/lang/middle/sema/cast.c
+++ b/src/cxy/lang/middle/sema/cast.c
@@ -7,13 +7,9 @@
 
 #include "lang/frontend/flag.h"
 
-static void castIntegerLiteral(const Type *to, AstNode *expr)
+static void castIntegerLiteral(const Type *to, AstNode *expr, i128 value)
 {
-#define CAST_INTEGER(TYP)                                                      \
-    if (expr->intLiteral.isNegative)                                           \
-        expr->intLiteral.value = (i64)(TYP)expr->intLiteral.value;             \
-    else                                                                       \
-        expr->intLiteral.uValue = (u64)(TYP)expr->intLiteral.uValue;
+#define CAST_INTEGER(TYP) nodeSetIntegerLiteral(expr, (TYP)value)
 
     switch (to->primitive.id) {
     case prtU8:
@@ -41,6 +37,7 @@ static void castIntegerLiteral(const Type *to, AstNode *expr)
         CAST_INTEGER(i64);
         break;
     default:
+        nodeSetIntegerLiteral(expr, value);
         break;
     }
 #undef CAST_INTEGER
@@ -50,66 +47,41 @@ static void castLiteral(TypingContext *ctx, AstNode *node)
 {
     if (isLiteralExpr(node) && typeIs(node->type, Primitive)) {
         AstNode *expr = node->castExpr.expr;
+        while (nodeIs(expr, GroupExpr))
+            expr = expr->groupExpr.expr;
+
+        if (isEnumLiteral(expr))
+            nodeSetIntegerLiteral(expr, getEnumLiteralValue(expr));
+        else if (!nodeIs(expr, IntegerLit) && !nodeIs(expr, FloatLit) &&
+                 !nodeIs(expr, CharLit) && !nodeIs(expr, BoolLit))
+            // not a value known by now, cast it at runtime
+            return;
+
         expr->type = node->type;
         if (isIntegerType(node->type)) {
-            if (nodeIs(expr, FloatLit)) {
-                expr->tag = astIntegerLit;
-                if (expr->floatLiteral.value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = (i64)expr->floatLiteral.value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = (u64)expr->floatLiteral.value;
-                }
-            }
-            else if (nodeIs(expr, CharLit)) {
-                expr->tag = astIntegerLit;
-                expr->intLiteral.isNegative = false;
-                expr->intLiteral.uValue = expr->charLiteral.value;
-            }
-            else if (nodeIs(expr, BoolLit)) {
-                expr->tag = astIntegerLit;
-                expr->intLiteral.isNegative = false;
-                expr->intLiteral.uValue = expr->boolLiteral.value ? 1 : 0;
-            }
-            else if (isEnumLiteral(expr)) {
-                i64 value = getEnumLiteralValue(expr);
-                expr->tag = astIntegerLit;
-                if (value < 0) {
-                    expr->intLiteral.isNegative = true;
-                    expr->intLiteral.value = value;
-                }
-                else {
-                    expr->intLiteral.isNegative = false;
-                    expr->intLiteral.uValue = value;
-                }
-            }
-            else {
-                csAssert0(nodeIs(expr, IntegerLit));
-            }
-            castIntegerLiteral(node->type, expr);
+            i128 value = nodeIs(expr, FloatLit)
+                             ? (i128)expr->floatLiteral.value
+                             : nodeGetIntegralLiteral(expr);
+            castIntegerLiteral(node->type, expr, value);
             replaceAstNodeWith(node, expr);
         }
         else if (isFloatType(node->type)) {
-            if (!nodeIs(expr, FloatLit)) {
-                expr->floatLiteral.value = (f64)integerLiteralValue(expr);
-                expr->tag = astFloatLit;
-            }
+            expr->floatLiteral.value = nodeGetNumericLiteral(expr);
+            expr->tag = astFloatLit;
             if (node->type->primitive.id == prtF32)
                 expr->floatLiteral.value = (f32)(expr->floatLiteral.value);
             replaceAstNodeWith(node, expr);
         }
         else if (isCharacterType(node->type)) {
+            i128 value = nodeIs(expr, FloatLit)
+                             ? (i128)expr->floatLiteral.value
+                             : nodeGetIntegralLiteral(expr);
             expr->tag = astCharLit;
-            expr->charLiteral.value = (i32)nodeGetNumericLiteral(expr);
-            if (node->primitiveType.id == prtCChar)
-                expr->charLiteral.value = (u8)expr->charLiteral.value;
+            expr->charLiteral.value = node->type->primitive.id == prtCChar
+                                          ? (u8)value
+                                          : (wchar)value;
             replaceAstNodeWith(node, expr);
         }
-        else {
-            unreachable("UNSUPPORTED CAST");
-        }
     }
 }
 
-- 
2.43.0


From 89f47cd899e6f0035c9061eb44a6dee3c3dd36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 38/52] fix: character literals outside ASCII are generated by
 value

---
 src/cxy/lang/backend/c/generate.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 6db31a9..e71f5a9 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -784,16 +784,15 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->type->primitive.id == prtCChar) {
+    if (node->charLiteral.value > 0x7f)
+        // does not fit in a C character literal
         format(getState(ctx),
-               "'{cE}'",
-               (FormatArg[]){{.c = node->charLiteral.value}});
-    }
-    else {
+               "{i64}",
+               (FormatArg[]){{.i64 = node->charLiteral.value}});
+    else
         format(getState(ctx),
                "'{cE}'",
                (FormatArg[]){{.c = node->charLiteral.value}});
-    }
 }
 
 static void visitIntegerLit(ConstAstVisitor *visitor, const AstNode *node)
-- 
2.43.0


From 2cee0c8e385d2450c071f7731967867986275e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:59 +0000
Subject: [PATCH 39/52] fix: parenthesised operands are evaluated at compile
 time

---
 src/cxy/lang/middle/eval/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/eval/eval.c b/src/cxy/lang/middle/eval/eval.c
index 4db6cc8..43494d0 100644
--- a/src/cxy/lang/middle/eval/eval.c
+++ b/src/cxy/lang/middle/eval/eval.c
@@ -102,7 +102,7 @@ bool comptimeCompareTypes(const AstNode *lhs, const AstNode *rhs)
 
 bool evaluate(AstVisitor *visitor, AstNode *node)
 {
-    if (node->tag != astUnaryExpr &&
+    if (node->tag != astUnaryExpr && node->tag != astGroupExpr &&
         (isLiteralExpr(node) || isBuiltinTypeExpr(node)))
         return true;
 
-- 
2.43.0


From 1f2a6b7d6280a4266e1a225c1bc53e11c1432f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 40/52] fix: escapes and non-ASCII text in literals denote the
 characters written

---
 src/cxy/core/utils.c              | 103 +++++++++++-------------------
 src/cxy/lang/backend/c/generate.c |  18 ++++--
 2 files changed, 47 insertions(+), 74 deletions(-)

diff --git a/src/cxy/core/utils.c b/src/cxy/core/utils.c
index aeddd88..a3579e0 100644
--- a/src/cxy/core/utils.c
+++ b/src/cxy/core/utils.c
@@ -26,12 +26,22 @@ typedef CxyPair(u32, u32) u32_u32_pair;
 
 static inline bool isodigit(int c) { return c >= '0' && c <= '7'; }
 
-static size_t convertStrToCharOrd(const char *ptr, int base, u32 *res)
+// At most \p max digits of the given base, 0 if there are none or if the value
+// does not fit in a byte
+static size_t convertStrToCharOrd(
+    const char *ptr, size_t n, u32 base, size_t max, u32 *res)
 {
-    char *next = NULL;
-    unsigned int ord = strtoul(ptr, &next, base);
+    size_t i = 0;
+    u32 ord = 0;
+    for (; i < n && i < max; i++) {
+        char c = ptr[i];
+        if (base == 8 ? !isodigit(c) : !isxdigit((u8)c))
+            break;
+        ord = ord * base +
+              (c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10);
+    }
     *res = ord;
-    return ord <= 255 && !errno ? next - ptr : 0;
+    return ord <= 255 ? i : 0;
 }
 
 static u32 inline countLeadingZeros(char c)
@@ -50,7 +60,12 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
     if (len == 0) {
         return (u32_u32_pair){1, (u32)s[0]};
     }
-    csAssert(count <= len, "invalid UTF-8 character sequence");
+    if (len > count)
+        return (u32_u32_pair){0, 0};
+    for (u32 i = 1; i < len; i++) {
+        if ((s[i] & 0xC0) != 0x80)
+            return (u32_u32_pair){0, 0};
+    }
 
     switch (len) {
     case 2:
@@ -63,10 +78,8 @@ static u32_u32_pair convertStrToUtf32(const char *s, size_t count)
                               ((s[0] & 0x7) << 18) | ((s[1] & 0x3F) << 12) |
                                   ((s[2] & 0x3F) << 6) | (s[3] & 0x3F)};
     default:
-        csAssert(false, "invalid UTF-8 sequence");
+        return (u32_u32_pair){0, 0};
     }
-
-    unreachable("");
 }
 
 size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
@@ -107,20 +120,14 @@ size_t convertEscapeSeq(const char *ptr, size_t n, u32 *res)
         case '\\':
             *res = '\\';
             return 2;
-        case 'x':
-            if (n <= 2)
-                return 0;
-            return 2 + convertStrToCharOrd(ptr + 2, 16, res);
-        case '0':
-            if (!isodigit(ptr[2]) || !isodigit(ptr[3])) {
-                *res = '\0';
-                return 2;
-            }
-            return 1 + convertStrToCharOrd(ptr + 1, 8, res);
-        default:
-            if (isdigit(ptr[1]))
-                return 1 + convertStrToCharOrd(ptr + 1, 8, res);
-            return 0;
+        case 'x': {
+            size_t len = convertStrToCharOrd(ptr + 2, n - 2, 16, 2, res);
+            return len ? 2 + len : 0;
+        }
+        default: {
+            size_t len = convertStrToCharOrd(ptr + 1, n - 1, 8, 3, res);
+            return len ? 1 + len : 0;
+        }
         }
     }
     if (((u8 *)ptr)[0] >= 0x80) {
@@ -155,53 +162,15 @@ size_t escapeString(const char *str, size_t n, char *dst, size_t size)
             continue;
         }
 
-        i++;
-        if ((n - i) < 1)
+        u32 ord = 0;
+        size_t len = convertEscapeSeq(&str[i], n - i, &ord);
+        if (len == 0) {
+            // not an escape sequence
+            dst[j++] = str[i++];
             continue;
-
-        switch (str[i]) {
-        case 'n':
-            dst[j++] = '\n';
-            i++;
-            break;
-        case 't':
-            dst[j++] = '\t';
-            i++;
-            break;
-        case 'v':
-            dst[j++] = '\v';
-            i++;
-            break;
-        case 'r':
-            dst[j++] = '\r';
-            i++;
-            break;
-        case 'a':
-            dst[j++] = '\a';
-            i++;
-            break;
-        case 'b':
-            dst[j++] = '\b';
-            i++;
-            break;
-        case '$':
-            dst[j++] = '$';
-            i++;
-            break;
-        case '"':
-            dst[j++] = '"';
-            i++;
-            break;
-        case '0':
-            if (!isdigit(str[i + 1])) {
-                dst[j++] = '\0';
-                i++;
-                break;
-            }
-        default:
-            dst[j++] = '\\';
-            break;
         }
+        dst[j++] = (char)ord;
+        i += len;
     }
 
     dst[j] = 0;
diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index e71f5a9..7231b0e 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -784,8 +784,8 @@ static void visitBoolLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitCharLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    if (node->charLiteral.value > 0x7f)
-        // does not fit in a C character literal
+    if (node->charLiteral.value > 0x7f || node->charLiteral.value == '\'')
+        // needs an escape or does not fit in a C character literal
         format(getState(ctx),
                "{i64}",
                (FormatArg[]){{.i64 = node->charLiteral.value}});
@@ -827,12 +827,16 @@ static void visitFloatLit(ConstAstVisitor *visitor, const AstNode *node)
 static void visitStringLit(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
-    cstring p = node->stringLiteral.value;
     format(getState(ctx), "\"", NULL);
-    while (*p != '\0') {
-        bool escaped =
-            p[0] != '\\' || (p[1] != 'x' && p[1] != 'X' && !isdigit(p[1]));
-        printUtf8(getState(ctx), *p++, escaped);
+    for (const u8 *p = (const u8 *)node->stringLiteral.value; *p; p++) {
+        if (*p >= 0x20 && *p < 0x7f) {
+            printUtf8(getState(ctx), *p, true);
+            continue;
+        }
+        // three octal digits, never merges with the characters that follow
+        char text[8];
+        snprintf(text, sizeof(text), "\\%03o", *p);
+        format(getState(ctx), "{s}", (FormatArg[]){{.s = text}});
     }
     format(getState(ctx), "\"", NULL);
 }
-- 
2.43.0


From befaf6d1f72c7f5280eb71cf1115c351007440a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:34 +0000
Subject: [PATCH 41/52] fix: the lexer stops at the end of the text and rejects
 integers that do not fit

---
 src/cxy/lang/frontend/lexer.c  | 70 ++++++++++++++++++++--------------
 src/cxy/lang/frontend/parser.c |  5 +++
 2 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index 7385a4b..c9f1447 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -5,6 +5,7 @@
 #include "token.h"
 
 #include <ctype.h>
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -147,8 +148,8 @@ static inline bool isSpaceOrPunctuation(char c)
 
 static void skipUntilSpaceOrPunctuation(Lexer *lexer)
 {
-    while (!isSpaceOrPunctuation(getCurChar(lexer)))
-        advanceLexer(lexer);
+    while (!isEofReached(lexer) && !isSpaceOrPunctuation(getCurChar(lexer)))
+        skipChar(lexer);
 }
 
 static bool acceptChar(Lexer *lexer, char c)
@@ -216,13 +217,6 @@ static inline Token makeToken_(Lexer *lexer,
                    .buffer = buffer};
 }
 
-static Token makeIntLiteral(Lexer *lexer, const FilePos *begin, uintmax_t iVal)
-{
-    Token token = makeToken(lexer, begin, tokIntLiteral);
-    token.iVal = iVal;
-    return token;
-}
-
 static Token makeFloatLiteral(Lexer *lexer, const FilePos *begin, double fVal)
 {
     Token token = makeToken(lexer, begin, tokFloatLiteral);
@@ -239,6 +233,23 @@ static Token makeInvalidToken(Lexer *lexer,
     return token;
 }
 
+static Token makeIntLiteral(Lexer *lexer,
+                            const FilePos *begin,
+                            const char *digits,
+                            int base)
+{
+    if (digits == getCurPtr(lexer))
+        return makeInvalidToken(lexer, begin, "integer literal has no digits");
+    errno = 0;
+    const uintmax_t iVal = strtoumax(digits, NULL, base);
+    if (errno == ERANGE)
+        return makeInvalidToken(
+            lexer, begin, "integer literal does not fit in 64 bits");
+    Token token = makeToken(lexer, begin, tokIntLiteral);
+    token.iVal = iVal;
+    return token;
+}
+
 static Token multilineString(Lexer *lexer)
 {
     FilePos begin = lexer->buffer->filePos;
@@ -477,12 +488,14 @@ Token advanceLexer(Lexer *lexer)
 
             parsingStringLiteral = true;
         lexerLexString:
-            while (getCurChar(lexer) != '\"') {
-                if (acceptChar(lexer, '\n')) {
+            while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
+                if (getCurChar(lexer) == '\n') {
                     // Backslash to continue string on another line
-                    if (acceptChar(lexer, '\\'))
-                        continue;
-                    break;
+                    if (peekNextChar(lexer) != '\\')
+                        break;
+                    skipChar(lexer);
+                    skipChar(lexer);
+                    continue;
                 }
 
                 if (getCurChar(lexer) == '\\') {
@@ -520,7 +533,8 @@ Token advanceLexer(Lexer *lexer)
         if (acceptChar(lexer, '\'')) {
             const char *ptr = getCurPtr(lexer);
             size_t charCount = 0;
-            for (; getCurChar(lexer) != '\'' && getCurChar(lexer) != '\n';
+            for (; !isEofReached(lexer) && getCurChar(lexer) != '\'' &&
+                   getCurChar(lexer) != '\n';
                  charCount++) {
                 if (getCurChar(lexer) == '\\') {
                     skipChar(lexer);
@@ -530,9 +544,8 @@ Token advanceLexer(Lexer *lexer)
             }
 
             Token token = makeToken(lexer, &begin, tokCharLiteral);
-            if (!acceptChar(lexer, '\'') ||
-                convertEscapeSeq(
-                    ptr, getCurPtr(lexer) - ptr - 1, &token.cVal) != charCount)
+            if (!acceptChar(lexer, '\'') || charCount == 0 ||
+                convertEscapeSeq(ptr, charCount, &token.cVal) != charCount)
                 return makeInvalidToken(
                     lexer, &begin, "invalid character literal");
             return token;
@@ -575,7 +588,8 @@ Token advanceLexer(Lexer *lexer)
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) == '0' || getCurChar(lexer) == '1')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -583,8 +597,7 @@ Token advanceLexer(Lexer *lexer)
                             "binary digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 2));
+                    return makeIntLiteral(lexer, &begin, ptr, 2);
                 }
                 else if (acceptChar(lexer, 'x')) {
                     // Hexadecimal literal
@@ -592,7 +605,8 @@ Token advanceLexer(Lexer *lexer)
                     while (isxdigit(getCurChar(lexer)))
                         skipChar(lexer);
 
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
@@ -600,23 +614,22 @@ Token advanceLexer(Lexer *lexer)
                             "hexadecimal digit contains invalid characters");
                     }
 
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 16));
+                    return makeIntLiteral(lexer, &begin, ptr, 16);
                 }
                 else if (acceptChar(lexer, 'o')) {
                     // Octal literal
                     ptr = getCurPtr(lexer);
                     while (getCurChar(lexer) >= '0' && getCurChar(lexer) <= '7')
                         skipChar(lexer);
-                    if (!isSpaceOrPunctuation(getCurChar(lexer))) {
+                    if (!isEofReached(lexer) &&
+                        !isSpaceOrPunctuation(getCurChar(lexer))) {
                         skipUntilSpaceOrPunctuation(lexer);
                         return makeInvalidToken(
                             lexer,
                             &begin,
                             "octal digit contains invalid characters");
                     }
-                    return makeIntLiteral(
-                        lexer, &begin, strtoumax(ptr, NULL, 8));
+                    return makeIntLiteral(lexer, &begin, ptr, 8);
                 }
             }
 
@@ -644,8 +657,7 @@ Token advanceLexer(Lexer *lexer)
             }
 
             return hasDot ? makeFloatLiteral(lexer, &begin, strtod(ptr, NULL))
-                          : makeIntLiteral(
-                                lexer, &begin, strtoumax(ptr, NULL, 10));
+                          : makeIntLiteral(lexer, &begin, ptr, 10);
         }
 
         skipChar(lexer);
diff --git a/src/cxy/lang/frontend/parser.c b/src/cxy/lang/frontend/parser.c
index 0815cb1..66e1bd4 100644
--- a/src/cxy/lang/frontend/parser.c
+++ b/src/cxy/lang/frontend/parser.c
@@ -483,6 +483,11 @@ static inline AstNode *parseInteger(Parser *P, bool isNegative)
         &(AstNode){.tag = astIntegerLit, .intLiteral.uValue = tok.iVal});
 
     if (isNegative) {
+        if (tok.iVal > (u64)INT64_MAX + 1)
+            parserError(P,
+                        &tok.fileLoc,
+                        "negative integer literal does not fit in 64 bits",
+                        NULL);
         node->intLiteral.isNegative = true;
         node->intLiteral.value = -tok.iVal;
     }
-- 
2.43.0


From babf86f1d5380faf442f743a560c095c9fb7b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 42/52] fix: a string literal does not go on behind the end of
 its line

---
 src/cxy/lang/frontend/lexer.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cxy/lang/frontend/lexer.c b/src/cxy/lang/frontend/lexer.c
index c9f1447..ce27b98 100644
--- a/src/cxy/lang/frontend/lexer.c
+++ b/src/cxy/lang/frontend/lexer.c
@@ -294,7 +294,7 @@ Token advanceLexer(Lexer *lexer)
     }
 
     while (true) {
-        bool parsingStringLiteral = false;
+        bool parsingStringLiteral = false, newLine = false;
         FilePos begin = lexer->buffer->filePos;
         LexerBuffer *buffer = NULL;
         if (lexer->flags & lxEnterStringExpr) {
@@ -489,13 +489,12 @@ Token advanceLexer(Lexer *lexer)
             parsingStringLiteral = true;
         lexerLexString:
             while (!isEofReached(lexer) && getCurChar(lexer) != '\"') {
-                if (getCurChar(lexer) == '\n') {
+                if (acceptChar(lexer, '\n')) {
                     // Backslash to continue string on another line
-                    if (peekNextChar(lexer) != '\\')
-                        break;
-                    skipChar(lexer);
-                    skipChar(lexer);
-                    continue;
+                    if (acceptChar(lexer, '\\'))
+                        continue;
+                    newLine = true;
+                    break;
                 }
 
                 if (getCurChar(lexer) == '\\') {
@@ -524,7 +523,7 @@ Token advanceLexer(Lexer *lexer)
                 lexer->flags &= ~lxContinueStringExpr;
                 lexer->flags |= lxExitStringExpr;
             }
-            if (!acceptChar(lexer, '\"'))
+            if (newLine || !acceptChar(lexer, '\"'))
                 return makeInvalidToken(
                     lexer, &begin, "unterminated string literal");
             return makeToken_(lexer, buffer, &begin, tokStringLiteral);
-- 
2.43.0


From 8fa22fc3297de6a6c85fc544ff8309a26942cabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 43/52] fix: a class inherits each member of its base's bases
 once

---
 src/cxy/lang/middle/sema/class.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/middle/sema/class.c b/src/cxy/lang/middle/sema/class.c
index 7497462..4f67f20 100644
--- a/src/cxy/lang/middle/sema/class.c
+++ b/src/cxy/lang/middle/sema/class.c
@@ -15,7 +15,8 @@
 static inline bool isInheritable(AstNode *member)
 {
     return nodeIs(member, FieldDecl) &&
-           !(hasFlag(member, Static) || hasFlag(member, VTable));
+           !(hasFlag(member, Static) || hasFlag(member, VTable) ||
+             hasFlag(member, Inherited));
 }
 
 static void inheritClassMembers(TypingContext *ctx,
-- 
2.43.0


From aa3ffdd1d1042b9f99849e75aab513934234ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:00 +0000
Subject: [PATCH 44/52] fix: array literals inside structs, tuples and arrays
 are plain initializers in C

---
 src/cxy/lang/backend/c/generate.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/cxy/lang/backend/c/generate.c b/src/cxy/lang/backend/c/generate.c
index 7231b0e..219e411 100644
--- a/src/cxy/lang/backend/c/generate.c
+++ b/src/cxy/lang/backend/c/generate.c
@@ -866,6 +866,26 @@ static void visitIdentifier(ConstAstVisitor *visitor, const AstNode *node)
     }
 }
 
+// In C an array inside of an aggregate can only be initialized by a braced list
+static void visitMemberInitializer(ConstAstVisitor *visitor,
+                                   const AstNode *node)
+{
+    CodegenContext *ctx = getConstAstVisitorContext(visitor);
+    if (!nodeIs(node, ArrayExpr)) {
+        astConstVisit(visitor, node);
+        return;
+    }
+
+    format(getState(ctx), "{{", NULL);
+    const AstNode *element = node->arrayExpr.elements;
+    for (; element; element = element->next) {
+        visitMemberInitializer(visitor, element);
+        if (element->next)
+            format(getState(ctx), ", ", NULL);
+    }
+    format(getState(ctx), "}", NULL);
+}
+
 static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
 {
     CodegenContext *ctx = getConstAstVisitorContext(visitor);
@@ -875,7 +895,7 @@ static void visitArrayExpr(ConstAstVisitor *visitor, const AstNode *node)
         generateTypeName(ctx, getState(ctx), node->type);
         format(getState(ctx), ")", NULL);
     }
-    generateMany(visitor, node->arrayExpr.elements, "{{", ", ", "}");
+    visitMemberInitializer(visitor, node);
 }
 
 enum { precPostfix, precPrefix, precTernary = 14, precAssign };
@@ -1138,7 +1158,7 @@ static void visitFieldExpr(ConstAstVisitor *visitor, const AstNode *node)
     if (nullInit)
         format(getState(ctx), " {{}", NULL);
     else
-        astConstVisit(visitor, node->fieldExpr.value);
+        visitMemberInitializer(visitor, node->fieldExpr.value);
 }
 
 static void visitStructExpr(ConstAstVisitor *visitor, const AstNode *node)
@@ -1165,7 +1185,7 @@ static void visitTupleExpr(ConstAstVisitor *visitor, const AstNode *node)
         if (i)
             format(getState(ctx), ",\n", NULL);
         format(getState(ctx), "._{u64} = ", (FormatArg[]){{.u64 = i}});
-        astConstVisit(visitor, member);
+        visitMemberInitializer(visitor, member);
     }
     format(getState(ctx), "{<}\n}", NULL);
 }
-- 
2.43.0


From 485f7d0f922bfa97f3cae1cb200a485da2284668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:26 +0000
Subject: [PATCH 45/52] fix: moving a class object without destructor out of a
 member left the member in place

---
 src/cxy/lang/middle/mem/finalize.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cxy/lang/middle/mem/finalize.c b/src/cxy/lang/middle/mem/finalize.c
index 06de334..fbef455 100644
--- a/src/cxy/lang/middle/mem/finalize.c
+++ b/src/cxy/lang/middle/mem/finalize.c
@@ -57,6 +57,13 @@ static bool hasVariableDropFlags(const AstNode *node)
            node->varDecl.dropFlags != NULL;
 }
 
+static bool isManagedMemberOrElement(const AstNode *node)
+{
+    const Type *type = resolveUnThisUnwrapType(node->type);
+    return (nodeIs(node, MemberExpr) || nodeIs(node, IndexExpr)) &&
+           (isClassType(type) || isDestructible(type));
+}
+
 static AstNode *makeAssignDropFlagsNode(MemFinalizeContext *ctx,
                                         AstNode *dropFlags,
                                         bool drop)
@@ -220,16 +227,14 @@ static void visitUnaryExpr(AstVisitor *visitor, AstNode *node)
                                  makeAssignDropFlagsNode(
                                      ctx, resolved->varDecl.dropFlags, false));
         }
-        else if ((nodeIs(operand, MemberExpr) || nodeIs(operand, IndexExpr)) &&
-                 isDestructible(operand->type)) {
+        else if (isManagedMemberOrElement(operand)) {
             astModifierAddAsNext(
                 &ctx->blockModifier,
                 makeZeromemAstNode(ctx, deepCloneAstNode(ctx->pool, operand)));
         }
         break;
     case opDelete:
-        if ((nodeIs(operand, MemberExpr) || nodeIs(operand, IndexExpr)) &&
-            isDestructible(operand->type)) {
+        if (isManagedMemberOrElement(operand)) {
             astModifierAddAsNext(
                 &ctx->blockModifier,
                 makeZeromemAstNode(ctx, deepCloneAstNode(ctx->pool, operand)));
-- 
2.43.0


From 214bfe9b62dc6487236d1ed6ec7f1526a575adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:26 +0000
Subject: [PATCH 46/52] fix: expressions within formatted strings were not
 rewritten, catch was ignored

---
 src/cxy/lang/middle/shake/shake.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index d41a4a7..0a4a6f2 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -1117,6 +1117,7 @@ static void shakeStringExpr(AstVisitor *visitor, AstNode *node)
             part = part->next;
             continue;
         }
+        astVisit(visitor, part);
         sb = makeBinaryExpr(ctx->pool,
                             locExtend(&node->loc, &part->loc),
                             flgNone,
-- 
2.43.0


From f4fb52fbda56b033a284b737b51c7ee035db1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 47/52] fix: objects moved in a switch, a loop or from a
 parameter and objects selected by ?: were released twice or never

---
 src/cxy/lang/middle/mem/manage.c | 77 +++++++++++++++++++++++++++++---
 1 file changed, 72 insertions(+), 5 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index bb07e68..30fa09f 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -141,7 +141,9 @@ static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned)
+        else if (varLhs->state == vtsAssigned || varRhs->state == vtsAssigned ||
+                 varLhs->state == vtsMaybeAssigned ||
+                 varRhs->state == vtsMaybeAssigned)
             state = vtsMaybeAssigned;
         else
             state = vtsUninitialized;
@@ -189,7 +191,8 @@ static bool vtNeedsDropFlags(const VariableTrace *vt)
 static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
 {
     AstNode *var = vt->variable;
-    bool drop = nodeIs(var, VarDecl) && var->varDecl.init != NULL;
+    // a parameter always has a value
+    bool drop = !nodeIs(var, VarDecl) || var->varDecl.init != NULL;
     vt->dropFlags = makeVarDecl(
         ctx->pool,
         builtinLoc(),
@@ -216,6 +219,17 @@ static void insertedDropFlags(MemContext *ctx, VariableTrace *vt)
     vt->variable->varDecl.dropFlags = vt->dropFlags;
 }
 
+static bool vtNeedsDrop(MemContext *ctx, VariableTrace *vt)
+{
+    if (!vtNeedsMemMgmt(ctx, vt))
+        return false;
+    if (vt->state == vtsMoved && vt->dropFlags == NULL) {
+        // moved, but might have been assigned again in another iteration
+        insertedDropFlags(ctx, vt);
+    }
+    return true;
+}
+
 static void mergeUpdateVariableStates(MemContext *ctx,
                                       DynArray *lhs,
                                       const DynArray *rhs)
@@ -316,6 +330,37 @@ static void transformToCopyExpr(MemContext *ctx, AstNode *node, AstNode *expr)
     node->backendCallExpr.args = expr;
 }
 
+static void copySelectedValue(MemContext *ctx, AstNode *expr)
+{
+    // Whichever value gets selected is owned by the taker of the expression
+    if (nodeIs(expr, GroupExpr)) {
+        copySelectedValue(ctx, expr->groupExpr.expr);
+        return;
+    }
+
+    if (nodeIs(expr, Identifier) && hasFlag(expr, Move)) {
+        // an argument that was evaluated into a temporary variable
+        AstNode *var = resolveIdentifier(expr);
+        if (nodeIs(var, VarDecl) && hasFlag(var, Temporary) &&
+            var->varDecl.init)
+            copySelectedValue(ctx, var->varDecl.init);
+        return;
+    }
+
+    if (!nodeIs(expr, TernaryExpr))
+        return;
+
+    AstNode *values[] = {expr->ternaryExpr.body, expr->ternaryExpr.otherwise};
+    for (u32 i = 0; i < 2; i++) {
+        AstNode *value = values[i];
+        if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
+            transformToCopyExpr(
+                ctx, value, deepCloneAstNode(ctx->pool, value));
+        else
+            copySelectedValue(ctx, value);
+    }
+}
+
 static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
 {
     if (dynArrayEmpty(&ctx->scopes))
@@ -326,7 +371,7 @@ static void sealCurrentJumpPoint(MemContext *ctx, bool isReturn)
         {
             VariableTrace *vt = findVariableTrace(ctx, var[0]);
             csAssert0(vt);
-            if (vtNeedsMemMgmt(ctx, vt)) {
+            if (vtNeedsDrop(ctx, vt)) {
                 astModifierAdd(&ctx->blockModifier,
                                makeDropVariable(ctx, vt, false));
             }
@@ -343,7 +388,7 @@ static void sealAndFinalizeCurrentBlock(MemContext *ctx)
     {
         VariableTrace *vt = findVariableTrace(ctx, var[0]);
         csAssert0(vt);
-        if (vtNeedsMemMgmt(ctx, vt)) {
+        if (vtNeedsDrop(ctx, vt)) {
             astModifierAddAsNext(&ctx->blockModifier,
                                  makeDropVariable(ctx, vt, false));
         }
@@ -357,6 +402,8 @@ static void updateVariableStates(MemContext *ctx, const DynArray *vars)
         VariableTrace *vt = findVariableTrace(ctx, var->variable);
         csAssert0(vt);
         vt->state = var->state;
+        if (vtNeedsDropFlags(vt))
+            insertedDropFlags(ctx, vt);
     }
 }
 
@@ -415,6 +462,8 @@ static void visitVariableDecl(AstVisitor *visitor, AstNode *node)
     astVisit(visitor, init);
     if (isLeftValueExpr(init) && nodeNeedsMemMgmt(init))
         node->varDecl.init = makeCopyExpr(ctx, init);
+    else if (init && nodeNeedsMemMgmt(node))
+        copySelectedValue(ctx, init);
 }
 
 static void visitIdentifier(AstVisitor *visitor, AstNode *node)
@@ -474,6 +523,8 @@ static void takeAssignedValue(MemContext *ctx, AstNode *node)
     AstNode *rhs = node->assignExpr.rhs;
     if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs))
         rhs = makeCopyExpr(ctx, rhs);
+    else
+        copySelectedValue(ctx, rhs);
     if (isLiteralExpr(rhs))
         return;
     // The new value might depend on the value being replaced, it must be
@@ -501,7 +552,7 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         VariableTrace *vt = findVariableTrace(ctx, lhs);
         astVisit(visitor, rhs);
         csAssert0(vt);
-        if (vtNeedsMemMgmt(ctx, vt)) {
+        if (vtNeedsDrop(ctx, vt)) {
             takeAssignedValue(ctx, node);
             astModifierAdd(&ctx->blockModifier,
                            makeDropVariable(
@@ -510,6 +561,9 @@ static void visitAssignExpr(AstVisitor *visitor, AstNode *node)
         else if (isLeftValueExpr(rhs) && nodeNeedsMemMgmt(rhs)) {
             node->assignExpr.rhs = makeCopyExpr(ctx, rhs);
         }
+        else if (nodeNeedsMemMgmt(lhs)) {
+            copySelectedValue(ctx, rhs);
+        }
         vt->state = vtsAssigned;
         return;
     }
@@ -556,6 +610,8 @@ static void visitCallExpr(AstVisitor *visitor, AstNode *node)
         if (isLeftValueExpr(arg) && nodeNeedsMemMgmt(param) &&
             !hasFlag(arg, Move))
             transformToCopyExpr(ctx, arg, deepCloneAstNode(ctx->pool, arg));
+        else if (nodeNeedsMemMgmt(param))
+            copySelectedValue(ctx, arg);
     }
 }
 
@@ -573,6 +629,8 @@ static void visitTupleExpr(AstVisitor *visitor, AstNode *node)
 
         if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr))
             transformToCopyExpr(ctx, expr, deepCloneAstNode(ctx->pool, expr));
+        else
+            copySelectedValue(ctx, expr);
     }
 }
 
@@ -585,6 +643,8 @@ static void visitStructExpr(AstVisitor *visitor, AstNode *node)
         astVisit(visitor, value);
         if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
             field->fieldExpr.value = makeCopyExpr(ctx, value);
+        else
+            copySelectedValue(ctx, value);
     }
 }
 
@@ -596,6 +656,8 @@ static void visitArrayExpr(AstVisitor *visitor, AstNode *node)
         astVisit(visitor, elem);
         if (isLeftValueExpr(elem) && nodeNeedsMemMgmt(elem))
             transformToCopyExpr(ctx, elem, deepCloneAstNode(ctx->pool, elem));
+        else
+            copySelectedValue(ctx, elem);
     }
 }
 
@@ -606,6 +668,8 @@ static void visitUnionValueExpr(AstVisitor *visitor, AstNode *node)
     astVisit(visitor, value);
     if (isLeftValueExpr(value) && nodeNeedsMemMgmt(value))
         node->unionValue.value = makeCopyExpr(ctx, value);
+    else
+        copySelectedValue(ctx, value);
 }
 
 static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
@@ -626,6 +690,9 @@ static void visitReturnStmt(AstVisitor *visitor, AstNode *node)
         else if (isLeftValueExpr(expr) && nodeNeedsMemMgmt(expr)) {
             expr = makeCopyExpr(ctx, expr);
         }
+        else {
+            copySelectedValue(ctx, expr);
+        }
 
         if (!isLiteralExpr(expr)) {
             AstNode *var = ctx->returnVariable;
-- 
2.43.0


From f5034754136e87fe2c3f20bc5352f08d5bd2128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 48/52] fix: default of an optional member was not wrapped

---
 src/cxy/lang/middle/sema/check.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 827c2b4..297ff65 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -730,6 +730,16 @@ static void checkField(AstVisitor *visitor, AstNode *node)
     }
 
     node->type = typeIs(type, Auto) ? value : type;
+    if (value == NULL || nodeIs(tmp, NullLit))
+        return;
+
+    AstNode *init = node->structField.value;
+    if (hasFlag(type, Optional) && !hasFlag(value, Optional)) {
+        init->type = getOptionalTargetType(type);
+        if (!transformOptionalSome(
+                visitor, init, copyAstNode(ctx->pool, init)))
+            node->type = ERROR_TYPE(ctx);
+    }
 }
 
 static void checkLiteral(AstVisitor *visitor, AstNode *node)
-- 
2.43.0


From e509102298b6e6fec7fd39065f05c1a48f038571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 49/52] fix: an optional as the condition of ?: compared the
 struct itself

---
 src/cxy/lang/middle/sema/check.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 297ff65..084d525 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -790,6 +790,22 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
         return;
     }
 
+    cond = unwrapType(cond, NULL);
+    if (isClassOrStructType(stripReference(cond))) {
+        if (!transformToTruthyOperator(visitor, node->ternaryExpr.cond)) {
+            if (!typeIs(node->ternaryExpr.cond->type, Error))
+                logError(ctx->L,
+                         &node->ternaryExpr.cond->loc,
+                         "expecting a struct that overloads the truthy `!!` in "
+                         "a ternary expression condition, "
+                         "got '{t}'",
+                         (FormatArg[]){{.t = cond}});
+            node->type = ERROR_TYPE(ctx);
+            return;
+        }
+        cond = node->ternaryExpr.cond->type;
+    }
+
     if (!isTruthyType(cond)) {
         logError(ctx->L,
                  &node->ternaryExpr.cond->loc,
-- 
2.43.0


From 8d5538de5fd4dd9049bca270e66a6e99513e0ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:23 +0000
Subject: [PATCH 50/52] fix: what the condition of an else if needs was
 evaluated before the first condition

---
 src/cxy/lang/middle/shake/shake.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/shake/shake.c b/src/cxy/lang/middle/shake/shake.c
index 0a4a6f2..5d99397 100644
--- a/src/cxy/lang/middle/shake/shake.c
+++ b/src/cxy/lang/middle/shake/shake.c
@@ -488,14 +488,15 @@ static void shakeIfStmt(AstVisitor *visitor, AstNode *node)
 
     if (node->ifStmt.otherwise) {
         AstNode *otherwise = node->ifStmt.otherwise;
-        if (!nodeIs(otherwise, BlockStmt) && !nodeIs(otherwise, IfStmt)) {
+        // what the statement needs evaluated upfront belongs to its own block
+        if (!nodeIs(otherwise, BlockStmt) && !hasFlag(otherwise, Comptime)) {
             node->ifStmt.otherwise =
                 makeAstNode(ctx->pool,
                             &otherwise->loc,
                             &(AstNode){.tag = astBlockStmt,
                                        .blockStmt = {.stmts = otherwise}});
         }
-        astVisit(visitor, otherwise);
+        astVisit(visitor, node->ifStmt.otherwise);
     }
 }
 
-- 
2.43.0


From 807b3eff306a6b90d061b8e287a63128553fff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:23 +0000
Subject: [PATCH 51/52] fix: arguments and raising calls within operands of &&,
 || and ?: were always evaluated

---
 src/cxy/lang/frontend/visitor.c         |  47 +++++++++-
 src/cxy/lang/frontend/visitor.h         |  19 ++++
 src/cxy/lang/middle/sema/binary.c       |  39 ++++++++
 src/cxy/lang/middle/sema/check.c        |  44 +++++++++
 src/cxy/lang/middle/sema/check.h        |   4 +
 src/cxy/lang/middle/sema/node.c         |  28 ++++++
 src/cxy/lang/middle/simplify/simplify.c | 117 ++++++++++++++++++++++++
 7 files changed, 297 insertions(+), 1 deletion(-)

diff --git a/src/cxy/lang/frontend/visitor.c b/src/cxy/lang/frontend/visitor.c
index f278f27..f8834c0 100644
--- a/src/cxy/lang/frontend/visitor.c
+++ b/src/cxy/lang/frontend/visitor.c
@@ -484,4 +484,49 @@ void astModifierAddHead(AstModifier *ctx, AstNode *node)
         ctx->parent->blockStmt.stmts = node;
         last->next = ctx->parent->blockStmt.stmts;
     }
-}
\ No newline at end of file
+}
+void astLazyOperandOpen(AstLazyOperand *lazy,
+                        AstModifier *ctx,
+                        MemPool *pool,
+                        const AstNode *expr)
+{
+    lazy->saved = *ctx;
+    lazy->last = makeAstNode(pool, &expr->loc, &(AstNode){.tag = astNoop});
+    lazy->block = makeBlockStmt(pool, &expr->loc, lazy->last, NULL, NULL);
+    astModifierInit(ctx, lazy->block);
+    astModifierNext(ctx, lazy->last);
+}
+
+bool astLazyOperandClose(AstLazyOperand *lazy, AstModifier *ctx)
+{
+    *ctx = lazy->saved;
+    return lazy->block->blockStmt.stmts != lazy->last;
+}
+
+void astLazyOperandFlatten(AstLazyOperand *lazy, AstModifier *ctx)
+{
+    AstNode *stmts = lazy->block->blockStmt.stmts, *stmt = stmts;
+    if (stmts == lazy->last)
+        return;
+    while (stmt->next != lazy->last)
+        stmt = stmt->next;
+    stmt->next = NULL;
+    astModifierAdd(ctx, stmts);
+}
+
+void astLazyOperandAssign(AstLazyOperand *lazy,
+                          MemPool *pool,
+                          AstNode *var,
+                          AstNode *expr)
+{
+    lazy->last->tag = astExprStmt;
+    lazy->last->type = var->type;
+    lazy->last->exprStmt.expr = makeAssignExpr(pool,
+                                               &expr->loc,
+                                               flgNone,
+                                               var,
+                                               opAssign,
+                                               expr,
+                                               NULL,
+                                               var->type);
+}
diff --git a/src/cxy/lang/frontend/visitor.h b/src/cxy/lang/frontend/visitor.h
index e892757..6f3b34c 100644
--- a/src/cxy/lang/frontend/visitor.h
+++ b/src/cxy/lang/frontend/visitor.h
@@ -72,6 +72,25 @@ void astModifierAddAsLast(AstModifier *ctx, AstNode *node);
 void astModifierAddHead(AstModifier *ctx, AstNode *node);
 void astModifierRemoveCurrent(AstModifier *ctx);
 
+/**
+ * An operand which is not always evaluated. Statements added to the modifier
+ * while the operand is open, i.e those it needs evaluated upfront, are collected
+ * in `block`
+ */
+typedef struct AstLazyOperand {
+    AstModifier saved;
+    AstNode *block;
+    AstNode *last;
+} AstLazyOperand;
+
+void astLazyOperandOpen(AstLazyOperand *lazy, AstModifier *ctx, MemPool *pool, const AstNode *expr);
+/// Closes the operand, returns true if any statements were collected
+bool astLazyOperandClose(AstLazyOperand *lazy, AstModifier *ctx);
+/// Evaluate the statements that were collected where the modifier is
+void astLazyOperandFlatten(AstLazyOperand *lazy, AstModifier *ctx);
+/// Terminate the block that was collected with the assignment `var = expr`
+void astLazyOperandAssign(AstLazyOperand *lazy, MemPool *pool, AstNode *var, AstNode *expr);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/cxy/lang/middle/sema/binary.c b/src/cxy/lang/middle/sema/binary.c
index e0501f8..17a03b3 100644
--- a/src/cxy/lang/middle/sema/binary.c
+++ b/src/cxy/lang/middle/sema/binary.c
@@ -159,6 +159,37 @@ static void checkBinaryOperatorOverload(AstVisitor *visitor, AstNode *node)
     checkType(visitor, node);
 }
 
+static void transformToLazyLogical(TypingContext *ctx,
+                                   AstNode *node,
+                                   AstLazyOperand *lazy)
+{
+    // var _lz = lhs; if (_lz) { ...; _lz = rhs }
+    AstNode *var = makeLazyResult(ctx, node, node->binaryExpr.lhs),
+            *cond = makeLazyResultRef(ctx, var);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &node->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+    astLazyOperandAssign(
+        lazy, ctx->pool, makeLazyResultRef(ctx, var), node->binaryExpr.rhs);
+    lazy->block->type = makeVoidType(ctx->types);
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(&ctx->blockModifier,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              cond,
+                              lazy->block,
+                              NULL,
+                              NULL));
+    replaceWithLazyResult(ctx, node, var);
+}
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
@@ -212,7 +243,13 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
     ctx->catcher.block = rhs;
     ctx->catcher.variable = NULL;
     ctx->catcher.ex = NULL;
+    AstLazyOperand lazy = {};
+    bool isLogical = op == opLAnd || op == opLOr, isLazy = false;
+    if (isLogical)
+        astLazyOperandOpen(&lazy, &ctx->blockModifier, ctx->pool, rhs);
     const Type *right = checkType(visitor, node->binaryExpr.rhs);
+    if (isLogical)
+        isLazy = astLazyOperandClose(&lazy, &ctx->blockModifier);
     newCatcher = ctx->catcher;
     ctx->catcher = catcher;
 
@@ -304,6 +341,8 @@ void checkBinaryExpr(AstVisitor *visitor, AstNode *node)
                      (FormatArg[]){{.s = getBinaryOpString(op)}, {.t = type}});
             node->type = ERROR_TYPE(ctx);
         }
+        else if (isLazy)
+            transformToLazyLogical(ctx, node, &lazy);
         break;
 
     case optComparison:
diff --git a/src/cxy/lang/middle/sema/check.c b/src/cxy/lang/middle/sema/check.c
index 084d525..4989053 100644
--- a/src/cxy/lang/middle/sema/check.c
+++ b/src/cxy/lang/middle/sema/check.c
@@ -776,12 +776,53 @@ static void checkLiteral(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static void transformToLazyTernary(TypingContext *ctx,
+                                   AstNode *node,
+                                   AstLazyOperand *then,
+                                   AstLazyOperand *esle)
+{
+    const Type *type = resolveUnThisUnwrapType(node->type);
+    AstNode *body = node->ternaryExpr.body;
+    if (body == NULL || isVoidType(type) || isClassOrStructType(type) ||
+        isTupleType(type) || isUnionType(type)) {
+        astLazyOperandFlatten(then, &ctx->blockModifier);
+        astLazyOperandFlatten(esle, &ctx->blockModifier);
+        return;
+    }
+
+    // var _lz: T; if (cond) { ...; _lz = body } else { ...; _lz = otherwise }
+    AstNode *var = makeLazyResult(ctx, node, NULL);
+    astLazyOperandAssign(then, ctx->pool, makeLazyResultRef(ctx, var), body);
+    astLazyOperandAssign(esle,
+                         ctx->pool,
+                         makeLazyResultRef(ctx, var),
+                         node->ternaryExpr.otherwise);
+    then->block->type = esle->block->type = makeVoidType(ctx->types);
+    astModifierAdd(&ctx->blockModifier, var);
+    astModifierAdd(&ctx->blockModifier,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              node->ternaryExpr.cond,
+                              then->block,
+                              esle->block,
+                              NULL));
+    replaceWithLazyResult(ctx, node, var);
+}
+
 static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
 {
     TypingContext *ctx = getAstVisitorContext(visitor);
     const Type *cond = checkType(visitor, node->ternaryExpr.cond);
+    AstLazyOperand then = {}, esle = {};
+    astLazyOperandOpen(
+        &then, &ctx->blockModifier, ctx->pool, node->ternaryExpr.cond);
     const Type *body = checkType(visitor, node->ternaryExpr.body);
+    bool isLazy = astLazyOperandClose(&then, &ctx->blockModifier);
+    astLazyOperandOpen(
+        &esle, &ctx->blockModifier, ctx->pool, node->ternaryExpr.otherwise);
     const Type *otherwise = checkType(visitor, node->ternaryExpr.otherwise);
+    isLazy = astLazyOperandClose(&esle, &ctx->blockModifier) || isLazy;
 
     if (typeIs(cond, Error) || //
         typeIs(body, Error) || //
@@ -827,6 +868,9 @@ static void checkTernaryExpr(AstVisitor *visitor, AstNode *node)
     }
     else
         node->type = body;
+
+    if (isLazy && !typeIs(node->type, Error))
+        transformToLazyTernary(ctx, node, &then, &esle);
 }
 
 const FileLoc *manyNodesLoc_(FileLoc *dst, AstNode *nodes)
diff --git a/src/cxy/lang/middle/sema/check.h b/src/cxy/lang/middle/sema/check.h
index f81a935..842d3d3 100644
--- a/src/cxy/lang/middle/sema/check.h
+++ b/src/cxy/lang/middle/sema/check.h
@@ -219,6 +219,10 @@ void checkUnionDecl(AstVisitor *visitor, AstNode *node);
 void checkGenericDecl(AstVisitor *visitor, AstNode *node);
 void checkExceptionDecl(AstVisitor *visitor, AstNode *node);
 
+AstNode *makeLazyResult(TypingContext *ctx, AstNode *node, AstNode *init);
+AstNode *makeLazyResultRef(TypingContext *ctx, AstNode *var);
+void replaceWithLazyResult(TypingContext *ctx, AstNode *node, AstNode *var);
+
 void checkBinaryExpr(AstVisitor *visitor, AstNode *node);
 void checkUnaryExpr(AstVisitor *visitor, AstNode *node);
 void checkPointerOfExpr(AstVisitor *visitor, AstNode *node);
diff --git a/src/cxy/lang/middle/sema/node.c b/src/cxy/lang/middle/sema/node.c
index 2ecd028..617e5b7 100644
--- a/src/cxy/lang/middle/sema/node.c
+++ b/src/cxy/lang/middle/sema/node.c
@@ -697,3 +697,31 @@ AstNode *implementDefaultInitializer(AstVisitor *visitor,
     }
     return func;
 }
+
+AstNode *makeLazyResult(TypingContext *ctx, AstNode *node, AstNode *init)
+{
+    return makeVarDecl(ctx->pool,
+                       &node->loc,
+                       flgTemporary,
+                       makeAnonymousVariable(ctx->strings, "_lz"),
+                       init ? NULL
+                            : makeTypeReferenceNode(
+                                  ctx->pool, node->type, &node->loc),
+                       init,
+                       NULL,
+                       node->type);
+}
+
+AstNode *makeLazyResultRef(TypingContext *ctx, AstNode *var)
+{
+    return makeResolvedPath(
+        ctx->pool, &var->loc, var->_name, flgNone, var, NULL, var->type);
+}
+
+void replaceWithLazyResult(TypingContext *ctx, AstNode *node, AstNode *var)
+{
+    node->tag = astPath;
+    clearAstBody(node);
+    node->path.elements = makeResolvedPathElement(
+        ctx->pool, &node->loc, var->_name, flgNone, var, NULL, var->type);
+}
diff --git a/src/cxy/lang/middle/simplify/simplify.c b/src/cxy/lang/middle/simplify/simplify.c
index 7e8ff4c..6b813a3 100644
--- a/src/cxy/lang/middle/simplify/simplify.c
+++ b/src/cxy/lang/middle/simplify/simplify.c
@@ -884,8 +884,124 @@ static void visitIdentifier(AstVisitor *visitor, AstNode *node)
     }
 }
 
+static AstNode *makeLazyResult(SimplifyContext *ctx,
+                               AstNode *node,
+                               AstNode *init)
+{
+    return makeVarDecl(ctx->pool,
+                       &node->loc,
+                       flgTemporary,
+                       makeAnonymousVariable(ctx->strings, "_lz"),
+                       NULL,
+                       init,
+                       NULL,
+                       node->type);
+}
+
+static AstNode *makeLazyResultRef(SimplifyContext *ctx, AstNode *var)
+{
+    return makeResolvedIdentifier(
+        ctx->pool, &var->loc, var->_name, 0, var, NULL, var->type);
+}
+
+static void replaceWithLazyResult(SimplifyContext *ctx,
+                                  AstNode *node,
+                                  AstNode *var)
+{
+    node->tag = astIdentifier;
+    clearAstBody(node);
+    node->ident.value = var->_name;
+    node->ident.resolvesTo = var;
+}
+
+static void visitLogicalExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstLazyOperand lazy = {};
+    astVisit(visitor, node->binaryExpr.lhs);
+    astLazyOperandOpen(&lazy, &ctx->block, ctx->pool, node->binaryExpr.rhs);
+    astVisit(visitor, node->binaryExpr.rhs);
+    if (!astLazyOperandClose(&lazy, &ctx->block))
+        return;
+
+    // The right operand is evaluated only if the left one does not decide
+    AstNode *var = makeLazyResult(ctx, node, node->binaryExpr.lhs),
+            *cond = makeLazyResultRef(ctx, var);
+    if (node->binaryExpr.op == opLOr)
+        cond = makeUnaryExpr(ctx->pool,
+                             &node->loc,
+                             flgNone,
+                             true,
+                             opNot,
+                             cond,
+                             NULL,
+                             node->type);
+    astLazyOperandAssign(
+        &lazy, ctx->pool, makeLazyResultRef(ctx, var), node->binaryExpr.rhs);
+    astModifierAdd(&ctx->block, var);
+    astModifierAdd(&ctx->block,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              cond,
+                              lazy.block,
+                              NULL,
+                              NULL));
+    replaceWithLazyResult(ctx, node, var);
+}
+
+static void visitTernaryExpr(AstVisitor *visitor, AstNode *node)
+{
+    SimplifyContext *ctx = getAstVisitorContext(visitor);
+    AstNode *body = node->ternaryExpr.body,
+            *otherwise = node->ternaryExpr.otherwise;
+    const Type *type = resolveUnThisUnwrapType(node->type);
+    astVisit(visitor, node->ternaryExpr.cond);
+    if (body == NULL) {
+        astVisit(visitor, otherwise);
+        return;
+    }
+
+    AstLazyOperand then = {}, esle = {};
+    astLazyOperandOpen(&then, &ctx->block, ctx->pool, body);
+    astVisit(visitor, body);
+    bool lazy = astLazyOperandClose(&then, &ctx->block);
+    astLazyOperandOpen(&esle, &ctx->block, ctx->pool, otherwise);
+    astVisit(visitor, otherwise);
+    lazy = astLazyOperandClose(&esle, &ctx->block) || lazy;
+    if (!lazy)
+        return;
+
+    if (isVoidType(type) || isClassType(type) || isDestructible(type)) {
+        astLazyOperandFlatten(&then, &ctx->block);
+        astLazyOperandFlatten(&esle, &ctx->block);
+        return;
+    }
+
+    // Only the selected operand is evaluated
+    AstNode *var = makeLazyResult(ctx, node, NULL);
+    astLazyOperandAssign(
+        &then, ctx->pool, makeLazyResultRef(ctx, var), body);
+    astLazyOperandAssign(
+        &esle, ctx->pool, makeLazyResultRef(ctx, var), otherwise);
+    astModifierAdd(&ctx->block, var);
+    astModifierAdd(&ctx->block,
+                   makeIfStmt(ctx->pool,
+                              &node->loc,
+                              flgNone,
+                              node->ternaryExpr.cond,
+                              then.block,
+                              esle.block,
+                              NULL));
+    replaceWithLazyResult(ctx, node, var);
+}
+
 static void visitBinaryExpr(AstVisitor *visitor, AstNode *node)
 {
+    if (node->binaryExpr.op == opLAnd || node->binaryExpr.op == opLOr) {
+        visitLogicalExpr(visitor, node);
+        return;
+    }
     astVisitFallbackVisitAll(visitor, node);
     SimplifyContext *ctx = getAstVisitorContext(visitor);
     AstNode *lhs = node->binaryExpr.lhs, *rhs = node->binaryExpr.rhs;
@@ -1469,6 +1585,7 @@ static AstNode *simplifyCode(CompilerDriver *driver, AstNode *node)
         [astPathElem] = visitPathElement,
         [astIdentifier] = visitIdentifier,
         [astBinaryExpr] = visitBinaryExpr,
+        [astTernaryExpr] = visitTernaryExpr,
         [astIndexExpr] = visitIndexExpr,
         [astCallExpr] = visitCallExpr,
         [astCastExpr] = visitCastExpr,
-- 
2.43.0


From 1d9dc0023a231f01e97df7ac1936b165a74645a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:32 +0000
Subject: [PATCH 52/52] fix: the compiler aborted on switches whose cases
 declare variables

The states captured before and after a case were matched by position, but the
hash map enumerates them in another order once variables were added and removed.
---
 src/cxy/lang/middle/mem/manage.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cxy/lang/middle/mem/manage.c b/src/cxy/lang/middle/mem/manage.c
index 30fa09f..8b45dcb 100644
--- a/src/cxy/lang/middle/mem/manage.c
+++ b/src/cxy/lang/middle/mem/manage.c
@@ -131,13 +131,26 @@ static void restoreVariableState(MemContext *ctx, DynArray *vars)
     }
 }
 
+static const VariableTrace *findCapturedState(const DynArray *vars,
+                                              const AstNode *variable)
+{
+    dynArrayFor(var, VariableTrace, vars)
+    {
+        if (var->variable == variable)
+            return var;
+    }
+    return NULL;
+}
+
 static bool mergeVariableStates(DynArray *lhs, const DynArray *rhs)
 {
     bool allMaybeAssigned = true;
     for (u32 i = 0; i < lhs->size; i++) {
         VariableTrace *varLhs = &dynArrayAt(VariableTrace *, lhs, i);
-        const VariableTrace *varRhs = &dynArrayAt(VariableTrace *, rhs, i);
-        csAssert0(varLhs->variable == varRhs->variable);
+        // the variables are enumerated in another order if some were added and
+        // removed since the first capture
+        const VariableTrace *varRhs = findCapturedState(rhs, varLhs->variable);
+        csAssert0(varRhs);
         VariableState state;
         if (varLhs->state == varRhs->state)
             state = varLhs->state;
-- 
2.43.0

