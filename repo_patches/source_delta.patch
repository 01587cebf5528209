From 6ce6adcabc068185fc85340de20d7d11b0233a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 01/14] fix: ARTOLC lookup validates the node before reporting
 a key that ends inside it as absent

---
 ARTOLC/Tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..638de45 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -56,6 +56,8 @@ namespace ART_OLC {
                     // fallthrough
                 case CheckPrefixResult::Match:
                     if (k.getKeyLen() <= level) {
+                        node->readUnlockOrRestart(v, needRestart);
+                        if (needRestart) goto restart;
                         return 0;
                     }
                     parentNode = node;
-- 
2.43.0


From c9224450eaab32e2a521100bedd5d220bb3b862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 02/14] fix: ARTOLC lookupRange findEnd clears needRestart
 before re-reading the parent

---
 ARTOLC/Tree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 638de45..f32a043 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -211,6 +211,7 @@ namespace ART_OLC {
                 parentNode->readUnlockOrRestart(vp, needRestart);
                 if (needRestart) {
                     readParentAgain:
+                    needRestart = false;
                     vp = parentNode->readLockOrRestart(needRestart);
                     if (needRestart) goto readParentAgain;
 
-- 
2.43.0


From d86b14340cbaeb9b13cfff29a36443abc0589b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 03/14] fix: ARTOLC remove validates the parent after taking
 the version of the child

---
 ARTOLC/Tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index f32a043..09de3e2 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -480,6 +480,10 @@ namespace ART_OLC {
             node = nextNode;
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            if (parentNode != nullptr) {
+                parentNode->checkOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
 
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
-- 
2.43.0


From c4977930640a058673562cdefe8f7933e377d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 04/14] fix: OptiQL remove validates the parent after taking
 the version of the child

---
 OptiQL/Tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..76ad9bf 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1231,6 +1231,10 @@ restart:
     node = nextNode;
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    if (parentNode != nullptr) {
+      parentNode->checkOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
 
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
-- 
2.43.0


From da7c26e59e9ef5afe6d287953dacfb1b1e56cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 05/14] fix: OptiQL update validates the child pointer read at
 the last key byte

---
 OptiQL/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 76ad9bf..1e79c45 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -648,7 +648,7 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
+        if (!lockAcquired) {
           parentNode->checkOrRestart(v, needRestart);
           if (needRestart) goto restart;
         }
-- 
2.43.0


From dfcd907d95026a99dfa652e07a1b39aa20ed3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 06/14] fix: BTreeOLC lookup returns false, not an
 indeterminate value, for an absent key

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 854cfba5a53d1003a5938e12b05a538b690daed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 07/14] fix: ARTOLC/OptiQL lookupRange handles an empty slot or
 a leaf where both bounds meet

---
 ARTOLC/Tree.cpp | 14 ++++++++++++++
 OptiQL/Tree.cpp | 30 ++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 09de3e2..ca8d595 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -324,6 +324,20 @@ namespace ART_OLC {
                         nextNode = N::getChild(startLevel, node);
                         node->readUnlockOrRestart(v, needRestart);
                         if (needRestart) goto restart;
+                        if (nextNode == nullptr) {
+                            break;
+                        }
+                        if (N::isLeaf(nextNode)) {
+                            Key leafKey;
+                            loadKey(N::getLeaf(nextNode), leafKey);
+                            auto less = [](const Key &a, const Key &b) {
+                                return std::lexicographical_compare(&a[0], &a[0] + a.getKeyLen(), &b[0], &b[0] + b.getKeyLen());
+                            };
+                            if (!less(leafKey, start) && less(leafKey, end)) {
+                                copy(nextNode);
+                            }
+                            break;
+                        }
                         level++;
                         continue;
                     }
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 1e79c45..1b75566 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -309,6 +309,21 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            break;
+          }
+          if (N::isLeaf(nextNode)) {
+            Key leafKey;
+            loadKey(N::getLeaf(nextNode), leafKey);
+            auto less = [](const Key &a, const Key &b) {
+              return std::lexicographical_compare(&a[0], &a[0] + a.getKeyLen(), &b[0],
+                                                  &b[0] + b.getKeyLen());
+            };
+            if (!less(leafKey, start) && less(leafKey, end)) {
+              copy(nextNode);
+            }
+            break;
+          }
           level++;
           continue;
         }
@@ -478,6 +493,21 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) {
+            break;
+          }
+          if (N::isLeaf(nextNode)) {
+            Key leafKey;
+            loadKey(N::getLeaf(nextNode), leafKey);
+            auto less = [](const Key &a, const Key &b) {
+              return std::lexicographical_compare(&a[0], &a[0] + a.getKeyLen(), &b[0],
+                                                  &b[0] + b.getKeyLen());
+            };
+            if (!less(leafKey, start)) {
+              copy(nextNode);
+            }
+            break;
+          }
           level++;
           continue;
         }
-- 
2.43.0


From b23e16dbe45b07ca5cbafbd1b1e82f60e24dd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 08/14] fix: ARTOLC insert reads the prefix length once while
 comparing, so a concurrent split cannot make the copy length underflow

---
 ARTOLC/Tree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index ca8d595..7facfb7 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -597,10 +597,12 @@ namespace ART_OLC {
                                                                         uint8_t &nonMatchingKey,
                                                                         Prefix &nonMatchingPrefix,
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        // read once: a concurrent writer may shorten the prefix while it is compared
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             uint32_t prevLevel = level;
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -609,16 +611,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
-- 
2.43.0


From 50b85080305e83cfbca4b661ca120ef58b431054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 09/14] fix: HOT lookup returns no value for an empty trie
 instead of dereferencing its null root

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..3e9555c 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(!current.isUsed()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From 9941cb53ac6dfae49438de842c6606d2b21d7b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 10/14] fix: HOT upsert replaces a leaf only if its slot still
 holds it once the node is locked

---
 HOT/include/hot/rowex/HOTRowex.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 3e9555c..2ebaacd 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -153,11 +153,14 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
 				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+					//the leaf could have been replaced (pushed down or updated) before the lock was acquired
+					if(leafEntry.isConsistent()) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From de0e4cc73feaf7dfbd67865a500253aecce391f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 11/14] fix: HOT upsert of a second key reports an insertion,
 not an update of the key it just inserted

---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 2ebaacd..ae2a48f 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -170,7 +170,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From 96375a66d895a5ab79ade573428fed7f7bb71c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 12/14] fix: HOT bounded iteration takes one copy of the root
 instead of re-reading it while others replace it

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..355736b 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,7 +57,7 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer currentRoot = *rootPointer;
 
 		return (currentRoot.isLeaf()
 				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-- 
2.43.0


From 11c3a2f14bfe9363b69f7f9abc23683b0563c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 13/14] fix: qsbr_wait keeps waiting while a claimed slot does
 not name its thread yet

---
 wormhole/lib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..b25e624 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2997,7 +2997,8 @@ qsbr_wait(struct qsbr * const q, const u64 target)
         } else {
           au64 * pptr = &(shard->ptrs[__builtin_ctzl(bit)]);
           struct qsbr_ref_real * const ptr = (typeof(ptr))atomic_load_explicit(pptr, MO_RELAXED);
-          if (atomic_load_explicit(&(ptr->qstate), MO_CONSUME) == target)
+          // a slot is claimed before it names its thread: keep waiting until it does
+          if (ptr && atomic_load_explicit(&(ptr->qstate), MO_CONSUME) == target)
             bms[i] &= ~bit;
         }
       }
-- 
2.43.0


From 66b6f740cb144303dd9fc6c35214bc0f423ddbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 14/14] fix: threads that register concurrently all stay on the
 thread list

---
 MassTree/kvthread.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MassTree/kvthread.cc b/MassTree/kvthread.cc
index cf199fb..03f7310 100644
--- a/MassTree/kvthread.cc
+++ b/MassTree/kvthread.cc
@@ -54,8 +54,10 @@ threadinfo *threadinfo::make(int purpose, int index) {
     static int threads_initialized;
 
     threadinfo* ti = new(malloc(8192)) threadinfo(purpose, index);
-    ti->next_ = allthreads;
-    allthreads = ti;
+    // threads register concurrently
+    do {
+        ti->next_ = allthreads;
+    } while (!__sync_bool_compare_and_swap(&allthreads, ti->next_, ti));
 
     if (!threads_initialized) {
 #if ENABLE_ASSERTIONS
-- 
2.43.0

